package adapt

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/diffx"
	"golang.org/x/exp/constraints"
)

// SortedMap is a skip-list map or an ordered map from key numbers to value numbers;
// the order of the numbers is the order of the keys.
type SortedMap interface {
	Set(k, v int)
	Get(k int) (int, bool)
	Del(k int) bool // always true for the ordered map
	Clear()
	Len() int
	Keys() []int
	Values() []int
	// ToMap lists the map it gets as pairs.
	ToMap() []int
	String() string
	Spell(k, v int) string // how String shows this entry
	Iterator() MapIterator
	Range(f func(k, v int) bool)
}

type MapIterator interface {
	Seek(k int) (int, int, bool)
	Rewind()
	Next() (int, int, bool)
}

type mapKind[K constraints.Ordered, V any] struct {
	key func(int) K
	unk func(K) int
	val func(int) V
	unv func(V) int
}

func (c mapKind[K, V]) Spell(k, v int) string { return fmt.Sprintf("%v:%v", c.key(k), c.val(v)) }
func (c mapKind[K, V]) keys(ks []K) []int {
	out := make([]int, len(ks))
	for i, k := range ks {
		out[i] = c.unk(k)
	}
	var z K
	for i := range ks {
		ks[i] = z
	}
	return out
}
func (c mapKind[K, V]) vals(vs []V) []int {
	out := make([]int, len(vs))
	for i, v := range vs {
		out[i] = c.unv(v)
	}
	var z V
	for i := range vs {
		vs[i] = z
	}
	return out
}

type sklMap[K constraints.Ordered, V any] struct {
	mapKind[K, V]
	m *sklmapx.SkipListMap[K, V]
}

func (c sklMap[K, V]) Set(k, v int) { c.m.Set(c.key(k), c.val(v)) }
func (c sklMap[K, V]) Get(k int) (int, bool) {
	v, ok := c.m.Get(c.key(k))
	return c.unv(v), ok
}
func (c sklMap[K, V]) Del(k int) bool { return c.m.Del(c.key(k)) }
func (c sklMap[K, V]) Clear()         { c.m.Clear() }
func (c sklMap[K, V]) Len() int       { return c.m.Len() }
func (c sklMap[K, V]) Keys() []int    { return c.keys(c.m.Keys()) }
func (c sklMap[K, V]) Values() []int  { return c.vals(c.m.Values()) }
func (c sklMap[K, V]) ToMap() []int {
	m := c.m.ToMap()
	var out []int
	for k, v := range m {
		out = append(out, c.unk(k), c.unv(v))
	}
	for k := range m {
		delete(m, k)
	}
	return out
}
func (c sklMap[K, V]) String() string            { return c.m.String() }
func (c sklMap[K, V]) Range(func(k, v int) bool) {}
func (c sklMap[K, V]) Iterator() MapIterator     { return sklIter[K, V]{c.mapKind, c.m.Iterator()} }

type sklIter[K constraints.Ordered, V any] struct {
	mapKind[K, V]
	i *sklmapx.Iterator[K, V]
}

func (c sklIter[K, V]) res(k K, v V, ok bool) (int, int, bool) {
	if !ok {
		return 0, 0, false
	}
	return c.unk(k), c.unv(v), ok
}
func (c sklIter[K, V]) Seek(k int) (int, int, bool) { return c.res(c.i.Seek(c.key(k))) }
func (c sklIter[K, V]) Rewind()                     { c.i.Rewind() }
func (c sklIter[K, V]) Next() (int, int, bool)      { return c.res(c.i.Next()) }

type ordMap[K constraints.Ordered, V any] struct {
	mapKind[K, V]
	m *ordmapx.OrdMap[K, V]
}

func (c ordMap[K, V]) Set(k, v int) { c.m.Set(c.key(k), c.val(v)) }
func (c ordMap[K, V]) Get(k int) (int, bool) {
	v, ok := c.m.Get(c.key(k))
	return c.unv(v), ok
}
func (c ordMap[K, V]) Del(k int) bool        { c.m.Del(c.key(k)); return true }
func (c ordMap[K, V]) Clear()                { c.m.Clear() }
func (c ordMap[K, V]) Len() int              { return c.m.Len() }
func (c ordMap[K, V]) Keys() []int           { return c.keys(c.m.Keys()) }
func (c ordMap[K, V]) Values() []int         { return c.vals(c.m.Values()) }
func (c ordMap[K, V]) ToMap() []int          { return nil }
func (c ordMap[K, V]) String() string        { return "" }
func (c ordMap[K, V]) Iterator() MapIterator { return nil }
func (c ordMap[K, V]) Range(f func(k, v int) bool) {
	c.m.Range(func(k K, v V) bool { return f(c.unk(k), c.unv(v)) })
}

func newSorted[K constraints.Ordered, V any](ord bool, c mapKind[K, V]) SortedMap {
	if ord {
		return ordMap[K, V]{c, ordmapx.New[K, V]()}
	}
	return sklMap[K, V]{c, sklmapx.New[K, V]()}
}

const SortedKinds = 8

// SortedMax is the largest key number each kind can hold, exclusive.
var SortedMax = []int{1 << 20, 1 << 20, 256, 1 << 20, 100000, 1 << 20, 1 << 20, 65536}

type word string

func same(x int) int { return x }

func NewSortedMap(ord bool, kind int) SortedMap {
	switch kind {
	case 0:
		return newSorted(ord, mapKind[int, int]{func(k int) int { return k - 7 }, func(k int) int { return k + 7 }, same, same})
	case 1: // a string that begins another comes before it; the empty one comes first
		return newSorted(ord, mapKind[string, string]{
			func(k int) string { return strings.TrimRight(fmt.Sprintf("%07d", k), "0") },
			func(s string) int { return atoi((s + "0000000")[:7]) },
			mkStr, unStr})
	case 2:
		return newSorted(ord, mapKind[uint8, *Item]{func(k int) uint8 { return uint8(k) }, func(k uint8) int { return int(k) }, mkItem, rdItem})
	case 3:
		return newSorted(ord, mapKind[float64, int]{func(k int) float64 {
			if k == 0 {
				return math.Inf(-1)
			}
			return float64(k)/4 - 3
		}, func(f float64) int {
			if math.IsInf(f, -1) {
				return 0
			}
			return int((f + 3) * 4)
		}, same, same})
	case 5: // a named type, and values of unrelated types
		return newSorted(ord, mapKind[word, any]{
			func(k int) word { return word(fmt.Sprintf("\xff%07d\x00", k)) },
			func(s word) int { return atoi(strings.Trim(string(s), "\xff\x00")) },
			anyOf, rdAny})
	case 6: // above the signed integers
		return newSorted(ord, mapKind[uint64, func() int]{
			func(k int) uint64 { return uint64(k) + 1<<63 - 10 },
			func(k uint64) int { return int(k - 1<<63 + 10) },
			mkFn, unFn})
	case 7:
		return newSorted(ord, mapKind[int16, int]{
			func(k int) int16 { return int16(k - 32768) },
			func(k int16) int { return int(k) + 32768 },
			same, same})
	default: // the extremes of the type
		return newSorted(ord, mapKind[int64, bigValue]{func(k int) int64 {
			switch {
			case k == 0:
				return math.MinInt64
			case k >= 99999:
				return math.MaxInt64
			}
			return int64(k-30) << 40
		}, func(x int64) int {
			switch x {
			case math.MinInt64:
				return 0
			case math.MaxInt64:
				return 99999
			}
			return int(x>>40) + 30
		}, mkBig, func(b bigValue) int {
			if b.P == nil && b.N == 0 {
				return 0
			}
			return rdBig(b)
		}})
	}
}

// Differ measures durations.
type Differ struct{ d *diffx.Differ }

func NewDiffer() Differ              { return Differ{diffx.New()} }
func (d Differ) Start()              { d.d.Start() }
func (d Differ) End()                { d.d.End() }
func (d Differ) GetDiff() int64      { return int64(d.d.GetDiff()) }
func (d Differ) GetStart() time.Time { return d.d.GetStart() }
func (d Differ) GetEnd() time.Time   { return d.d.GetEnd() }
func TimexNow() time.Time            { return timex.Now() }
