package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic machine value:
//
//	*Term      booleans and integers
//	float64    floating point (concrete only)
//	string     concrete string
//	*SymStr    string with symbolic bytes (concrete length)
//	Ptr        pointer (nil: Obj<0)
//	Slice, Map, Chan
//	Iface      interface value (nil: T==nil)
//	*FuncV     function value (nil pointer for nil)
//	*StructV, *ArrayV, Tuple
type Value any

type SymStr struct{ B []*Term }

type Ptr struct {
	Obj  int32
	Path *PathN
}

// PathN is an interned access path within an object.
type PathN struct {
	Parent *PathN
	Idx    int32
	Len    int32
	kids   map[int32]*PathN
}

type Slice struct {
	Obj           int32 // -1: nil
	Path          *PathN
	Off, Len, Cap int32
}

type Map struct{ Obj int32 }
type Chan struct{ Obj int32 }

type Iface struct {
	T types.Type
	V Value
}

type FuncV struct {
	Fn     *ssa.Function
	Native string // engine builtin
	Binds  []Value
}

type StructV struct{ F []Value }
type ArrayV struct{ E []Value }
type Tuple []Value

// LockV is stored over a sync.Mutex / sync.RWMutex struct.
type LockV struct {
	Owner   int32 // thread id +1 holding the write lock
	Readers int32
}

// MapObj is the immutable content of a map object.
type MapObj struct {
	K []Value
	V []Value
	T *types.Map
}

// ChanObj is the immutable content of a channel object.
type ChanObj struct {
	Cap    int32
	Closed bool
	Buf    []Value
	Elem   types.Type
}

// IterObj is a range iterator.
type IterObj struct {
	IsStr bool
	Str   Value
	Pos   int32
	M     Map
	Keys  []Value // remaining keys
}

var nilPtr = Ptr{Obj: -1}
var nilIface = Iface{}

func (e *Engine) path(p *PathN, idx int32) *PathN {
	if p == nil {
		p = e.rootPath
	}
	if k, ok := p.kids[idx]; ok {
		return k
	}
	if p.kids == nil {
		p.kids = make(map[int32]*PathN)
	}
	n := &PathN{Parent: p, Idx: idx, Len: p.Len + 1}
	p.kids[idx] = n
	return n
}

func (p *PathN) indices() []int32 {
	if p == nil || p.Len == 0 {
		return nil
	}
	out := make([]int32, p.Len)
	for q := p; q.Len > 0; q = q.Parent {
		out[q.Len-1] = q.Idx
	}
	return out
}

// IntInfo returns the width and signedness of a basic integer/bool type.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

// zero returns the zero value of t.
func (e *Engine) zero(t types.Type) Value {
	if v, ok := e.zeros[t]; ok {
		return v
	}
	v := e.mkZero(t)
	e.zeros[t] = v
	return v
}

func (e *Engine) mkZero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			if w == 0 {
				return e.S.False
			}
			return e.S.BV(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return ""
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer, types.UntypedNil:
			return nilPtr
		case types.Complex64, types.Complex128:
			return complex128(0)
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Slice{Obj: -1}
	case *types.Map:
		return Map{Obj: -1}
	case *types.Chan:
		return Chan{Obj: -1}
	case *types.Interface:
		return nilIface
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return &StructV{F: f}
	case *types.Array:
		el := make([]Value, u.Len())
		z := e.zero(u.Elem())
		for i := range el {
			el[i] = z
		}
		return &ArrayV{E: el}
	case *types.Tuple:
		tv := make(Tuple, u.Len())
		for i := range tv {
			tv[i] = e.zero(u.At(i).Type())
		}
		return tv
	}
	panic(incomplete("zero value of %s", t))
}

// Incomplete is raised (as a Go panic) when the engine meets something it cannot encode.
type Incomplete struct{ msg string }

func incomplete(f string, a ...any) Incomplete { return Incomplete{fmt.Sprintf(f, a...)} }

func (i Incomplete) Error() string { return i.msg }

// goPanic is raised inside an instruction to start a Go panic in the running thread.
type goPanic struct {
	val Value // Iface
}

// forked is raised when the instruction was aborted because the state was forked at a branch.
type forkAbort struct{}

// yieldAbort is raised when the instruction must wait for a scheduling decision.
type yieldAbort struct{}

// killPath is raised when the path is infeasible (assume false).
type killPath struct{}
