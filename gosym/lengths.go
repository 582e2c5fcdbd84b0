package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// lengths collects the sizes that matter to the code under test: integers that
// it compares with, sizes or slices buffers by, and their neighbours, also
// when 64 bytes come before the message.
func (e *Engine) lengths() []int {
	e.lensOnce.Do(func() {
		set := map[int]bool{}
		add := func(k int64) {
			for _, d := range []int64{-1, 0, 1} {
				for _, h := range []int64{0, 64} {
					if l := k + d - h; l >= 0 && l <= 1<<17 && (h == 0 || k > 128) {
						set[int(l)] = true
					}
				}
			}
		}
		val := func(v ssa.Value) {
			if k, ok := constOf(v, 0); ok && k > 128 {
				add(k)
			}
		}
		// small sizes count only where the length of a byte string is looked at
		small := func(v, other ssa.Value) {
			if isBytes(other.Type()) || !ofBytes(other) {
				return
			}
			if k, ok := constOf(v, 0); ok && k > 1 && k <= 128 {
				for d := int64(-1); d <= 1; d++ {
					set[int(k+d)] = true
				}
			}
		}
		for f := range ssautil.AllFunctions(e.prog) {
			if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), repoP+"pkg/") || strings.Contains(f.Pkg.Pkg.Path(), "/verifh/") || strings.HasSuffix(f.Pkg.Pkg.Path(), "/vsym") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.BinOp:
						switch x.Op {
						case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.SUB, token.REM, token.QUO:
							val(x.X)
							val(x.Y)
							if ofBytes(x.X) || ofBytes(x.Y) {
								big := func(k int64) {
									if k > 128 {
										add(k)
									}
								}
								through(x.X, x.Y, big)
								through(x.Y, x.X, big)
							}
							small(x.X, x.Y)
							small(x.Y, x.X)
						}
					case *ssa.MakeSlice:
						val(x.Len)
						val(x.Cap)
					case *ssa.Slice:
						if x.Low != nil {
							val(x.Low)
						}
						if x.High != nil {
							val(x.High)
						}
					case *ssa.Alloc:
						if a, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && a.Len() > 128 {
							add(a.Len())
						}
					}
				}
			}
		}
		for l := range set {
			e.lens = append(e.lens, l)
		}
		sort.Ints(e.lens)
		if debugOn {
			fmt.Println("lengths", e.lens)
		}
		if len(e.lens) > 60 {
			e.lens = e.lens[:60]
		}
	})
	return e.lens
}

// counts collects, likewise, the numbers of things other than bytes that
// matter to the code under test, from 4 to 140.
func (e *Engine) counts() []int {
	e.cntsOnce.Do(func() {
		set := map[int]bool{}
		add := func(k int64) {
			if k < 4 || k > 138 {
				return
			}
			for d := int64(-1); d <= 2; d++ {
				set[int(k+d)] = true
			}
		}
		val := func(v ssa.Value) {
			if k, ok := constOf(v, 0); ok {
				add(k)
			}
		}
		for f := range ssautil.AllFunctions(e.prog) {
			if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), repoP+"pkg/") || strings.Contains(f.Pkg.Pkg.Path(), "/verifh/") || strings.HasSuffix(f.Pkg.Pkg.Path(), "/vsym") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.BinOp:
						switch x.Op {
						case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.SUB, token.REM, token.QUO, token.AND:
							if ofBytes(x.X) || ofBytes(x.Y) {
								continue
							}
							if x.Op == token.AND {
								if k, ok := constOf(x.Y, 0); ok {
									add(k + 1)
								}
								continue
							}
							val(x.X)
							val(x.Y)
							through(x.X, x.Y, add)
							through(x.Y, x.X, add)
						}
					case *ssa.MakeSlice:
						if !isBytes(x.Type()) {
							val(x.Len)
							val(x.Cap)
						}
					case *ssa.MakeMap:
						if x.Reserve != nil {
							val(x.Reserve)
						}
					case *ssa.MakeChan:
						val(x.Size)
					case *ssa.Slice:
						if isBytes(x.X.Type()) {
							continue
						}
						if x.Low != nil {
							val(x.Low)
						}
						if x.High != nil {
							val(x.High)
						}
					case *ssa.Alloc:
						if a, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && !byteType(a.Elem()) {
							add(a.Len())
						}
					}
				}
			}
		}
		for l := range set {
			e.cnts = append(e.cnts, l)
		}
		sort.Ints(e.cnts)
		if debugOn {
			fmt.Println("counts", e.cnts)
		}
	})
	return e.cnts
}

// constOf is the value of an integer expression over constants, and over
// variables that are set once, to a constant.
func constOf(v ssa.Value, depth int) (int64, bool) {
	if depth > 6 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != constant.Int {
			return 0, false
		}
		return constant.Int64Val(x.Value)
	case *ssa.Convert:
		return constOf(x.X, depth+1)
	case *ssa.ChangeType:
		return constOf(x.X, depth+1)
	case *ssa.BinOp:
		a, ok := constOf(x.X, depth+1)
		if !ok {
			return 0, false
		}
		b, ok := constOf(x.Y, depth+1)
		if !ok {
			return 0, false
		}
		switch x.Op {
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.MUL:
			return a * b, true
		case token.QUO:
			if b != 0 {
				return a / b, true
			}
		case token.SHL:
			if b >= 0 && b < 40 {
				return a << uint(b), true
			}
		case token.SHR:
			if b >= 0 && b < 63 {
				return a >> uint(b), true
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return 0, false
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return onlyStore(a, *a.Referrers(), depth)
		case *ssa.FreeVar:
			// the variable of the enclosing function
			f := a.Parent()
			if f == nil || f.Parent() == nil {
				return 0, false
			}
			for i, fv := range f.FreeVars {
				if fv != a {
					continue
				}
				for _, b := range f.Parent().Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(*ssa.MakeClosure); ok && c.Fn == f {
							if al, ok := c.Bindings[i].(*ssa.Alloc); ok {
								return onlyStore(al, *al.Referrers(), depth)
							}
						}
					}
				}
			}
		case *ssa.Global:
			var refs []ssa.Instruction
			for _, m := range a.Pkg.Members {
				if f, ok := m.(*ssa.Function); ok {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if st, ok := in.(*ssa.Store); ok && st.Addr == a {
								refs = append(refs, st)
							}
						}
					}
				}
			}
			return onlyStore(a, refs, depth)
		}
	}
	return 0, false
}

func onlyStore(addr ssa.Value, refs []ssa.Instruction, depth int) (int64, bool) {
	var v ssa.Value
	for _, in := range refs {
		if st, ok := in.(*ssa.Store); ok && st.Addr == addr {
			if v != nil {
				return 0, false
			}
			v = st.Val
		}
	}
	if v == nil {
		return 0, false
	}
	return constOf(v, depth+1)
}

// through: c is compared with something computed from a size; that size
// matters.
func through(c, v ssa.Value, add func(int64)) {
	k, ok := constOf(c, 0)
	if !ok {
		return
	}
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.BinOp:
			b, ok := constOf(x.Y, 0)
			y := x.X
			if !ok {
				if x.Op != token.ADD && x.Op != token.MUL {
					return
				}
				if b, ok = constOf(x.X, 0); !ok {
					return
				}
				y = x.Y
			}
			switch x.Op {
			case token.ADD:
				k -= b
			case token.SUB:
				k += b
			case token.MUL:
				if b <= 0 {
					return
				}
				k /= b
			case token.QUO:
				k *= b
			case token.SHL:
				if b < 0 || b > 62 {
					return
				}
				k >>= uint(b)
			case token.SHR:
				if b < 0 || b > 20 {
					return
				}
				k <<= uint(b)
			default:
				return
			}
			add(k)
			v = y
			continue
		}
		return
	}
}

func isBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.Uint8 || u.Info()&types.IsString != 0
	case *types.Slice:
		return byteType(u.Elem())
	case *types.Array:
		return byteType(u.Elem())
	case *types.Pointer:
		a, ok := u.Elem().Underlying().(*types.Array)
		return ok && byteType(a.Elem())
	}
	return false
}

// ofBytes: a byte, bytes, or the length of bytes.
func ofBytes(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return isBytes(x.Call.Args[0].Type())
		}
	case *ssa.BinOp:
		return ofBytes(x.X) || ofBytes(x.Y)
	case *ssa.Convert:
		return ofBytes(x.X)
	}
	return isBytes(v.Type())
}

func byteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
