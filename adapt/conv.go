package adapt

import (
	"strconv"

	"github.com/unsafe-risk/utilx/typex/convx"
)

type (
	ConvA int
	ConvB struct {
		X   int
		Pad [3]int
	}
	ConvC string
	ConvS []int
	ConvF func() int
)

type ConvI interface{ Num() int }
type ConvJ interface {
	Num() int
	J()
}

func (a ConvA) Num() int { return int(a) }
func (a ConvA) J()       {}
func (b ConvB) Num() int { return b.X }
func (b ConvB) J()       {}

// Conv is the registry of one pair of types.
type Conv interface {
	Name() string
	// Register registers a converter that runs body(x) and gives x*1000+id.
	Register(id int, body func(x int))
	Unregister()
	Exists() bool
	Into(x int) (r int, ok bool)
	IntoOr(x, or int) int
}

type conv[T, R any] struct {
	name string
	mk   func(int) T
	un   func(T) int
	mkr  func(int) R
	unr  func(R) int
}

func (c conv[T, R]) Name() string { return c.name }
func (c conv[T, R]) Register(id int, body func(x int)) {
	p := &Item{ID: id, A: id * 3} // the converter carries memory of its own
	convx.Register(func(v T) R {
		if p.A != p.ID*3 {
			return c.mkr(-5)
		}
		x := c.un(v)
		body(x)
		return c.mkr(x*1000 + p.ID)
	})
}
func (c conv[T, R]) Unregister()  { convx.Unregister[T, R]() }
func (c conv[T, R]) Exists() bool { return convx.Exists[T, R]() }
func (c conv[T, R]) Into(x int) (int, bool) {
	r, ok := convx.Into[T, R](c.mk(x))
	return c.unr(r), ok
}
func (c conv[T, R]) IntoOr(x, or int) int {
	return c.unr(convx.IntoOr(c.mk(x), c.mkr(or)))
}

func mkA(x int) ConvA { return ConvA(x) }
func unA(a ConvA) int { return int(a) }
func mkB(x int) ConvB { return ConvB{X: x, Pad: [3]int{x, x + 1, x + 2}} }
func unB(b ConvB) int {
	if b == (ConvB{}) {
		return 0
	}
	if b.Pad != [3]int{b.X, b.X + 1, b.X + 2} {
		return -2
	}
	return b.X
}
func mkC(x int) ConvC {
	if x == 0 {
		return ""
	}
	return ConvC(strconv.Itoa(x))
}
func unC(c ConvC) int {
	if c == "" {
		return 0
	}
	return atoi(string(c))
}
func mkInt(x int) int { return x }
func mkStr(x int) string {
	return strconv.Itoa(x)
}
func unStr(s string) int {
	if s == "" {
		return 0
	}
	return atoi(s)
}
func mkS(x int) ConvS {
	if x == 0 {
		return nil
	}
	return ConvS{x, x}
}
func unS(s ConvS) int {
	if len(s) == 0 {
		return 0
	}
	return s[0]
}
func mkP(x int) *ConvB {
	if x == 0 {
		return nil
	}
	b := mkB(x)
	return &b
}
func unP(p *ConvB) int {
	if p == nil {
		return 0
	}
	return unB(*p)
}
func mkF(x int) ConvF {
	if x == 0 {
		return nil
	}
	return func() int { return x }
}
func unF(f ConvF) int {
	if f == nil {
		return 0
	}
	return f()
}

// interface values vary in dynamic type with the number they hold
func mkI(x int) ConvI {
	switch {
	case x == 0:
		return nil
	case x%2 == 0:
		return mkA(x)
	}
	return mkB(x)
}
func unI(i ConvI) int {
	if i == nil {
		return 0
	}
	if b, ok := i.(ConvB); ok {
		return unB(b)
	}
	return i.Num()
}
func mkJ(x int) ConvJ {
	switch {
	case x == 0:
		return nil
	case x%2 == 0:
		return mkA(x)
	}
	return mkB(x)
}
func unJ(i ConvJ) int {
	if i == nil {
		return 0
	}
	return unI(i)
}
func mkAny(x int) any {
	switch {
	case x == 0:
		return nil
	case x%4 == 0:
		return mkA(x)
	case x%4 == 1:
		return mkB(x)
	case x%4 == 2:
		return x
	}
	return mkC(x)
}
func unAny(v any) int {
	switch t := v.(type) {
	case nil:
		return 0
	case ConvA:
		return unA(t)
	case ConvB:
		return unB(t)
	case int:
		return t
	case ConvC:
		return unC(t)
	}
	return -2
}
func mkErr(x int) error {
	if x == 0 {
		return nil
	}
	return &numErr{x, x + 1}
}

type numErr struct{ n, m int }

func (e *numErr) Error() string { return "error " + strconv.Itoa(e.n) }
func unErr(err error) int {
	if err == nil {
		return 0
	}
	n, ok := err.(*numErr)
	if !ok || n.m != n.n+1 {
		return -2
	}
	return n.n
}

// Two types that share their name and package.
func recConv1() Conv {
	type rec struct{ n int }
	return conv[rec, ConvA]{"rec1>A", func(x int) rec { return rec{x} }, func(r rec) int { return r.n }, mkA, unA}
}
func recConv2() Conv {
	type rec struct{ a, n int }
	return conv[rec, ConvA]{"rec2>A", func(x int) rec { return rec{x, x} }, func(r rec) int { return r.n }, mkA, unA}
}
func mkInts(x int) []int {
	if x == 0 {
		return nil
	}
	return []int{x}
}
func unInts(s []int) int { return unS(s) }
func mkAs(x int) []ConvA {
	if x == 0 {
		return nil
	}
	return []ConvA{ConvA(x)}
}
func unAs(s []ConvA) int {
	if len(s) == 0 {
		return 0
	}
	return int(s[0])
}
func mkPI(x int) *int {
	if x == 0 {
		return nil
	}
	return &x
}
func unPI(p *int) int {
	if p == nil {
		return 0
	}
	return *p
}
func mkPA(x int) *ConvA {
	if x == 0 {
		return nil
	}
	a := ConvA(x)
	return &a
}
func unPA(p *ConvA) int {
	if p == nil {
		return 0
	}
	return int(*p)
}

// Convs lists the type pairs; the last one has a predefined converter that keeps the number.
var Convs = []Conv{
	conv[ConvA, ConvB]{"A>B", mkA, unA, mkB, unB},
	conv[ConvA, ConvA]{"A>A", mkA, unA, mkA, unA},
	conv[ConvA, ConvI]{"A>I", mkA, unA, mkI, unI},
	conv[ConvA, ConvJ]{"A>J", mkA, unA, mkJ, unJ},
	conv[ConvA, any]{"A>any", mkA, unA, mkAny, unAny},
	conv[ConvB, ConvA]{"B>A", mkB, unB, mkA, unA},
	conv[ConvB, ConvI]{"B>I", mkB, unB, mkI, unI},
	conv[ConvI, ConvA]{"I>A", mkI, unI, mkA, unA},
	conv[ConvI, ConvB]{"I>B", mkI, unI, mkB, unB},
	conv[ConvI, ConvJ]{"I>J", mkI, unI, mkJ, unJ},
	conv[ConvI, ConvI]{"I>I", mkI, unI, mkI, unI},
	conv[ConvJ, ConvA]{"J>A", mkJ, unJ, mkA, unA},
	conv[any, ConvA]{"any>A", mkAny, unAny, mkA, unA},
	conv[any, ConvB]{"any>B", mkAny, unAny, mkB, unB},
	conv[any, any]{"any>any", mkAny, unAny, mkAny, unAny},
	conv[any, ConvI]{"any>I", mkAny, unAny, mkI, unI},
	conv[*ConvB, ConvC]{"*B>C", mkP, unP, mkC, unC},
	conv[ConvC, *ConvB]{"C>*B", mkC, unC, mkP, unP},
	conv[ConvS, ConvA]{"S>A", mkS, unS, mkA, unA},
	conv[ConvF, ConvS]{"F>S", mkF, unF, mkS, unS},
	conv[ConvC, error]{"C>error", mkC, unC, mkErr, unErr},
	conv[error, ConvC]{"error>C", mkErr, unErr, mkC, unC},
	conv[int, ConvA]{"int>A", mkInt, mkInt, mkA, unA},
	recConv1(),
	recConv2(),
	conv[ConvA, []int]{"A>[]int", mkA, unA, mkInts, unInts},
	conv[ConvA, []ConvA]{"A>[]A", mkA, unA, mkAs, unAs},
	conv[*int, ConvA]{"*int>A", mkPI, unPI, mkA, unA},
	conv[*ConvA, ConvA]{"*A>A", mkPA, unPA, mkA, unA},
	conv[int, string]{"int>string", mkInt, mkInt, mkStr, unStr},
}
