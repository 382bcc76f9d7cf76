package sim

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter replaces the range statement over a map: the keys present at the start
// are visited in an order drawn from the simulated random source; keys deleted
// meanwhile are skipped, keys added meanwhile are not visited.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
}

func RangeMap[K comparable, V any](m map[K]V) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return newMapIter(m), k, v
}

func newMapIter[K comparable, V any](m map[K]V) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if w := active; w != nil {
		for i := len(it.keys) - 1; i > 0; i-- {
			j := w.Rand.Intn(i + 1)
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []int:
		sort.Ints(ks)
		return
	case []string:
		sort.Strings(ks)
		return
	}
	if len(keys) < 2 {
		return
	}
	switch reflect.TypeOf(keys).Elem().Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return
	}
	strs := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		strs[i] = fmt.Sprintf("%T %v", k, k)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

// Step advances and reports whether there is a next entry.
func (it *MapIter[K, V]) Step() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok && k == k {
			continue
		}
		it.k, it.v = k, v
		return true
	}
	return false
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	if !it.Step() {
		return false
	}
	if k != nil {
		*k = it.k
	}
	if v != nil {
		*v = it.v
	}
	return true
}

func (it *MapIter[K, V]) Key() K { return it.k }
func (it *MapIter[K, V]) Val() V { return it.v }
