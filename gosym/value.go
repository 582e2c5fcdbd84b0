package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	uint64 (concrete integer, masked to its width), *Term (symbolic integer or bool), bool,
//	string (concrete), *SymStr, float64, complex128,
//	*Struct, *Array (aggregates; also serve as pointers to themselves),
//	*Opaque (aggregate with an abstract payload: Scalar, Point, field.Element, hash state, ...),
//	*Cell, FieldPtr, ElemPtr (pointers to non-aggregates), nil (nil pointer/map/chan/func/interface),
//	Slice, *Map, *Iface, *Closure, *ssa.Function, *ssa.Builtin, *Chan, Tuple, *MapIter, *StrIter
type Value = any

type Struct struct {
	typ *types.Struct
	f   []Value
	id  int
}

type Array struct {
	elem types.Type
	e    []Value
	id   int
}

type Opaque struct {
	typ types.Type
	v   any // immutable payload; nil = zero value
	id  int
}

type Cell struct {
	v  Value
	id int
}

type FieldPtr struct {
	s *Struct
	i int
}

type ElemPtr struct {
	a *Array
	i int
}

type Slice struct {
	a             *Array
	off, len, cap int
}

type SymStr struct{ b []Value }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Tuple []Value

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	ent []*mapEntry
	idx map[any]*mapEntry // concrete keys
	n   int
	id  int
	sym int // number of live symbolic keys
	et  *types.Map
}

type MapIter struct {
	m    *Map
	i    int
	left []*mapEntry
	perm bool
}

type StrIter struct {
	s Value
	i int
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	id     int
	waitR  int
	clk    VC
}

// Opaque payloads
type ScalarV = *FF

type PointV struct {
	l   *FF   // discrete log of the prime-order component
	tau Value // torsion component in Z_8: uint64 or *Term of width 3
}

func widthOf(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func maskU(v uint64, w int) uint64 {
	if w >= 64 {
		return v
	}
	return v & (1<<uint(w) - 1)
}

func signX(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func isOpaqueType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() {
	case "filippo.io/edwards25519":
		return o.Name() == "Scalar" || o.Name() == "Point"
	case "filippo.io/edwards25519/field":
		return o.Name() == "Element"
	case "sync":
		switch o.Name() {
		case "Mutex", "RWMutex", "Once", "WaitGroup", "Cond", "Map":
			return true
		}
	case "sync/atomic":
		return false
	case "time":
		return o.Name() == "Timer" || o.Name() == "Time" || o.Name() == "Ticker"
	case "strings":
		return o.Name() == "Builder"
	case "os":
		return o.Name() == "File"
	case "bytes":
		return false
	}
	return false
}

func isAgg(t types.Type) bool {
	if isOpaqueType(t) {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (p *Path) newID() int {
	p.nextObj++
	return p.nextObj
}

func (p *Path) zero(t types.Type) Value {
	if isOpaqueType(t) {
		return &Opaque{typ: t, id: p.newID()}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
		return nil
	case *types.Struct:
		s := &Struct{typ: u, f: make([]Value, u.NumFields()), id: p.newID()}
		for i := range s.f {
			s.f[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &Array{elem: u.Elem(), e: make([]Value, u.Len()), id: p.newID()}
		if isAgg(u.Elem()) {
			for i := range a.e {
				a.e[i] = p.zero(u.Elem())
			}
		} else {
			z := p.zero(u.Elem())
			for i := range a.e {
				a.e[i] = z
			}
		}
		return a
	case *types.Slice:
		return Slice{}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = p.zero(u.At(i).Type())
		}
		return r
	}
	return nil
}

var aggCache sync.Map // *types.Struct -> []bool

func aggMask(t *types.Struct) []bool {
	if m, ok := aggCache.Load(t); ok {
		return m.([]bool)
	}
	m := make([]bool, t.NumFields())
	for i := range m {
		m[i] = isAgg(t.Field(i).Type())
	}
	aggCache.Store(t, m)
	return m
}

// copyAgg duplicates an aggregate (value semantics).
func (p *Path) copyAgg(v Value) Value {
	switch x := v.(type) {
	case *Struct:
		n := &Struct{typ: x.typ, f: make([]Value, len(x.f)), id: p.newID()}
		m := aggMask(x.typ)
		for i, f := range x.f {
			if m[i] {
				n.f[i] = p.copyAgg(f)
			} else {
				n.f[i] = f
			}
		}
		return n
	case *Array:
		n := &Array{elem: x.elem, e: make([]Value, len(x.e)), id: p.newID()}
		if isAgg(x.elem) {
			for i, f := range x.e {
				n.e[i] = p.copyAgg(f)
			}
		} else {
			copy(n.e, x.e)
		}
		return n
	case *Opaque:
		return &Opaque{typ: x.typ, v: x.v, id: p.newID()}
	}
	panic(fmt.Sprintf("copyAgg of %T", v))
}

// copyOf copies v if t is an aggregate type.
func (p *Path) copyOf(t types.Type, v Value) Value {
	if isAgg(t) {
		return p.copyAgg(v)
	}
	return v
}

// assignInto stores aggregate src into aggregate dst in place.
func (p *Path) assignInto(dst, src Value) {
	switch d := dst.(type) {
	case *Struct:
		s := src.(*Struct)
		if d == s {
			return
		}
		m := aggMask(d.typ)
		for i := range d.f {
			if m[i] {
				p.assignInto(d.f[i], s.f[i])
			} else {
				d.f[i] = s.f[i]
			}
		}
	case *Array:
		s := src.(*Array)
		if d == s {
			return
		}
		if isAgg(d.elem) {
			for i := range d.e {
				p.assignInto(d.e[i], s.e[i])
			}
		} else {
			copy(d.e, s.e)
		}
	case *Opaque:
		d.v = src.(*Opaque).v
	default:
		panic(fmt.Sprintf("assignInto %T", dst))
	}
}

func bigU(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

// term converts an integer value to a Term of width w.
func (p *Path) term(v Value, w int) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w != w {
			panic(fmt.Sprintf("term width %d want %d", x.w, w))
		}
		return x
	case uint64:
		return p.pool.Const(w, x)
	}
	panic(fmt.Sprintf("term of %T", v))
}

func (p *Path) bterm(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return p.pool.Bool(x)
	}
	panic(fmt.Sprintf("bterm of %T", v))
}

// fromTerm normalises constants back to concrete values.
func fromTerm(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.k.Sign() != 0
		}
		if t.w <= 64 {
			return t.k.Uint64()
		}
	}
	return t
}
