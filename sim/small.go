package sim

import (
	"fmt"
	"time"
	"unsafe"
)

// The containers and the formatter below avoid the runtime functions that report
// memory accesses to the race detector (maps, copies of pointer slices, pools
// inside fmt): harness state is shared by all tasks without synchronization, and
// neither must it be taken for a data race nor order the tasks' own accesses.

// Remove takes element i out of s.
func Remove[T any](s []T, i int) []T {
	for ; i+1 < len(s); i++ {
		s[i] = s[i+1]
	}
	var z T
	s[len(s)-1] = z
	return s[:len(s)-1]
}

// Insert puts v before element i of s.
func Insert[T any](s []T, i int, v T) []T {
	s = append(s, v)
	for k := len(s) - 1; k > i; k-- {
		s[k] = s[k-1]
	}
	s[i] = v
	return s
}

// Concat returns a fresh slice with the elements of both.
func Concat[T any](a, b []T) []T {
	out := make([]T, 0, len(a)+len(b))
	for _, x := range a {
		out = append(out, x)
	}
	for _, x := range b {
		out = append(out, x)
	}
	return out
}

// Assoc is a small association list.
type Assoc struct {
	keys []string
	vals []any
}

func (a *Assoc) Get(k string) any {
	for i := range a.keys {
		if a.keys[i] == k {
			return a.vals[i]
		}
	}
	return nil
}

func (a *Assoc) Set(k string, v any) {
	for i := range a.keys {
		if a.keys[i] == k {
			a.vals[i] = v
			return
		}
	}
	a.keys = append(a.keys, k)
	a.vals = append(a.vals, v)
}

// Counts counts by name.
type Counts struct {
	keys []string
	n    []int
}

func (c *Counts) Add(k string, d int) {
	for i := range c.keys {
		if c.keys[i] == k {
			c.n[i] += d
			return
		}
	}
	c.keys = append(c.keys, k)
	c.n = append(c.n, d)
}

func (c *Counts) Map() map[string]int {
	m := map[string]int{}
	for i, k := range c.keys {
		m[k] = c.n[i]
	}
	return m
}

// chanTable finds the state of a channel by its address.
type chanTable struct {
	keys []uintptr
	vals []*chanState
	n    int
}

func (t *chanTable) slot(k uintptr) int {
	i := int(Mix(uint64(k)) % uint64(len(t.keys)))
	for t.keys[i] != 0 && t.keys[i] != k {
		i++
		if i == len(t.keys) {
			i = 0
		}
	}
	return i
}

func (t *chanTable) get(k uintptr) *chanState {
	if t.n == 0 {
		return nil
	}
	return t.vals[t.slot(k)]
}

func (t *chanTable) set(k uintptr, st *chanState) {
	if 2*t.n >= len(t.keys) {
		ok, ov := t.keys, t.vals
		t.keys = make([]uintptr, 16+4*t.n)
		t.vals = make([]*chanState, len(t.keys))
		t.n = 0
		for i := range ok {
			if ok[i] != 0 {
				t.set(ok[i], ov[i])
			}
		}
	}
	i := t.slot(k)
	if t.keys[i] == 0 {
		t.n++
	}
	t.keys[i], t.vals[i] = k, st
}

func appendInt(b []byte, v int64) []byte {
	if v < 0 {
		b = append(b, '-')
		return appendUint(b, uint64(-v))
	}
	return appendUint(b, uint64(v))
}

func appendUint(b []byte, v uint64) []byte {
	if v >= 10 {
		b = appendUint(b, v/10)
	}
	return append(b, byte('0'+v%10))
}

func appendStr(b []byte, s string) []byte {
	for i := 0; i < len(s); i++ {
		b = append(b, s[i])
	}
	return b
}

func appendVal(b []byte, a any) ([]byte, bool) {
	switch v := a.(type) {
	case nil:
		b = appendStr(b, "<nil>")
	case int:
		b = appendInt(b, int64(v))
	case int64:
		b = appendInt(b, v)
	case int32:
		b = appendInt(b, int64(v))
	case uint32:
		b = appendUint(b, uint64(v))
	case uint64:
		b = appendUint(b, v)
	case uint8:
		b = appendUint(b, uint64(v))
	case time.Duration:
		b = appendStr(b, v.String())
	case string:
		b = appendStr(b, v)
	case bool:
		if v {
			b = appendStr(b, "true")
		} else {
			b = appendStr(b, "false")
		}
	case []int:
		b = append(b, '[')
		for i, x := range v {
			if i > 0 {
				b = append(b, ' ')
			}
			b = appendInt(b, int64(x))
		}
		b = append(b, ']')
	case []string:
		b = append(b, '[')
		for i, x := range v {
			if i > 0 {
				b = append(b, ' ')
			}
			b = appendStr(b, x)
		}
		b = append(b, ']')
	case error:
		b = appendStr(b, v.Error())
	default:
		return b, false
	}
	return b, true
}

// Sprintf is fmt.Sprintf, without fmt for the simple cases.
func Sprintf(format string, args ...any) string {
	b := make([]byte, 0, len(format)+32)
	k := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			b = append(b, c)
			continue
		}
		i++
		if i == len(format) {
			return fmt.Sprintf(format, args...)
		}
		switch format[i] {
		case '%':
			b = append(b, '%')
		case 'd', 'v', 's':
			if k == len(args) {
				return fmt.Sprintf(format, args...)
			}
			var ok bool
			if b, ok = appendVal(b, args[k]); !ok {
				return fmt.Sprintf(format, args...)
			}
			k++
		default:
			return fmt.Sprintf(format, args...)
		}
	}
	return unsafe.String(unsafe.SliceData(b), len(b))
}
