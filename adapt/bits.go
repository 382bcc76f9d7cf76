package adapt

import (
	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"golang.org/x/exp/constraints"
)

// Bits is a bit set with single-position operations.
type Bits interface {
	Set(i int)
	Clear(i int)
	Toggle(i int)
	Test(i int) bool
	IsEmpty() bool
	IsFull() bool
	ClearAll()
	ToggleAll()
	SetAll()
	Width() int
}

type bitsOf[T constraints.Unsigned] struct {
	b *bitsetx.BitSet[T]
	w int
}

func (b bitsOf[T]) Set(i int)       { b.b.Set(i) }
func (b bitsOf[T]) Clear(i int)     { b.b.Clear(i) }
func (b bitsOf[T]) Toggle(i int)    { b.b.Toggle(i) }
func (b bitsOf[T]) Test(i int) bool { return b.b.Test(i) }
func (b bitsOf[T]) IsEmpty() bool   { return b.b.IsEmpty() }
func (b bitsOf[T]) IsFull() bool    { return b.b.IsFull() }
func (b bitsOf[T]) ClearAll()       { b.b.ClearAll() }
func (b bitsOf[T]) ToggleAll()      { b.b.ToggleAll() }
func (b bitsOf[T]) SetAll()         { b.b.SetAll() }
func (b bitsOf[T]) Width() int      { return b.w }

func NewBits(kind int) Bits {
	switch kind {
	case 0:
		return bitsOf[uint8]{new(bitsetx.BitSet[uint8]), 8}
	case 1:
		return bitsOf[uint16]{new(bitsetx.BitSet[uint16]), 16}
	case 2:
		return bitsOf[uint32]{new(bitsetx.BitSet[uint32]), 32}
	}
	return bitsOf[uint64]{new(bitsetx.BitSet[uint64]), 64}
}
