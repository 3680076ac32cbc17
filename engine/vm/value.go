// Package vm is the symbolic machine shared by the Go, assembly and LLVM front
// ends: byte-addressed memory objects holding term fragments, states with a
// path condition, and a control-flow executor that merges states at joins.
package vm

import (
	"fmt"

	"verif/engine/term"
)

// Value is one of *term.Term, Ptr, Slice, Str, Iface, *Closure, *Raw, *Tuple,
// *VIte, TypeWord or nil (undefined).
type Value any

type Ptr struct {
	Obj int // 0: no object, Off is the plain numeric value (nil when 0)
	Off int64
}

func (p Ptr) IsNil() bool { return p.Obj == 0 && p.Off == 0 }

type Slice struct {
	P        Ptr
	Len, Cap int64
}
type Str struct {
	P   Ptr
	Len int64
}

// Iface is a non-nil or nil (Typ == nil) interface value. Typ is front-end data.
type Iface struct {
	Typ any
	Val Value
}

// Box wraps Values so that they can be compared with ==.
type Closure struct {
	Fn    any
	Bind  []Value
	IsNil bool
}

// Raw is an aggregate value: its bytes.
type Raw struct{ Cells []Cell }

type Tuple struct{ Vs []Value }

// VIte is a choice between values that have no common term representation.
type VIte struct {
	C    *term.Term
	A, B Value
}

// Cell is one byte of memory: byte Idx of V.
type Cell struct {
	V   Value
	Idx uint8
}

type Obj struct {
	ID     int
	Cells  []Cell
	owner  *State
	Name   string
	RO     bool
	Shared bool // global / shared between instances
	// an input too big to hold: its bytes are made when they are read
	Size  int64
	Lazy  func(off int64) Cell
	Align int
}

// Abort is thrown (panic) when the code leaves the supported subset.
type Abort struct{ Msg string }

func (a Abort) Error() string { return a.Msg }

func Unsupported(f string, a ...any) { panic(Abort{fmt.Sprintf(f, a...)}) }

func (m *M) termBytes(v Value) int {
	switch x := v.(type) {
	case *term.Term:
		return (int(x.W) + 7) / 8
	case Slice:
		return 3 * m.PtrSize
	case Str, Iface:
		return 2 * m.PtrSize
	case *VIte:
		return m.termBytes(x.A)
	default:
		return m.PtrSize
	}
}

// byteOf returns the 8-bit term of a cell.
func (m *M) byteOf(c Cell) *term.Term {
	t, ok := c.V.(*term.Term)
	if !ok {
		if p, ok := c.V.(Ptr); ok && p.Obj == 0 {
			return m.C.Const(8, uint64(p.Off)>>(8*uint(c.Idx)))
		}
		Unsupported("byte access to a non-numeric value %T", c.V)
	}
	if t.W == 1 {
		t = m.C.ZExt(t, 8)
	}
	if t.W == 8 {
		return t
	}
	return m.C.Extract(t, 8*c.Idx+7, 8*c.Idx)
}

// LoadCells reads an integer of n bytes from cells.
func (m *M) termFromCells(cs []Cell) *term.Term {
	n := len(cs)
	if t, ok := cs[0].V.(*term.Term); ok && cs[0].Idx == 0 && int(t.W) == 8*n {
		same := true
		for i := 1; i < n; i++ {
			if cs[i].V != cs[0].V || cs[i].Idx != uint8(i) {
				same = false
				break
			}
		}
		if same {
			return t
		}
	}
	if n > 8 {
		Unsupported("integer load of %d bytes", n)
	}
	ps := make([]*term.Term, n)
	for i := range cs {
		ps[n-1-i] = m.byteOf(cs[i])
	}
	return m.C.Concat(ps...)
}

// wordFromCells reads a pointer-sized value without interpreting it.
func (m *M) wordFromCells(cs []Cell) Value {
	if cs[0].Idx == 0 {
		if _, isT := cs[0].V.(*term.Term); !isT {
			for i := 1; i < len(cs); i++ {
				if cs[i].Idx != uint8(i) || !sameValue(cs[i].V, cs[0].V) {
					Unsupported("torn pointer word")
				}
			}
			return cs[0].V
		}
	}
	return m.termFromCells(cs)
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		return ok && x.Typ == y.Typ && sameValue(x.Val, y.Val)
	}
	return a == b
}

func (m *M) cellsOf(v Value, n int) []Cell {
	cs := make([]Cell, n)
	if t, ok := v.(*term.Term); ok && t.W == 1 {
		v = m.C.ZExt(t, 8)
	}
	for i := range cs {
		cs[i] = Cell{v, uint8(i)}
	}
	return cs
}

func (m *M) zeroCells(n int) []Cell {
	cs := make([]Cell, n)
	z := m.C.Const(8, 0)
	for i := range cs {
		cs[i] = Cell{z, 0}
	}
	return cs
}
