package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

var fnCache sync.Map

func infoOf(fn *ssa.Function) *fnInfo {
	if v, ok := fnCache.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fnCache.Store(fn, fi)
	return fi
}

type frame struct {
	p         *Path
	fn        *ssa.Function
	fi        *fnInfo
	regs      []Value
	defers    []deferred
	result    Value
	panicking *GoPanic
	recovered bool
	caller    *frame
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	inv  bool
}

func (f *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return f.p.constVal(x)
	case *ssa.Global:
		return f.p.globalAddr(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	}
	i, ok := f.fi.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), f.fn))
	}
	return f.regs[i]
}

func (f *frame) set(v ssa.Value, x Value) { f.regs[f.fi.idx[v]] = x }

func (p *Path) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return p.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if tp, ok2 := c.Type().(*types.TypeParam); ok2 {
			p.unsupported("type parameter constant %v", tp)
		}
		p.unsupported("const of type %v", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, _ := widthOf(t)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return maskU(uint64(i), w)
		}
		u, _ := constant.Uint64Val(v)
		return maskU(u, w)
	case b.Info()&types.IsFloat != 0:
		x, _ := constant.Float64Val(c.Value)
		return x
	case b.Info()&types.IsComplex != 0:
		return complex128(0)
	}
	return nil
}

func (p *Path) globalAddr(g *ssa.Global) Value {
	if v, ok := p.globals[g]; ok {
		return v
	}
	p.ensureInit(g.Pkg)
	if v, ok := p.globals[g]; ok {
		return v
	}
	et := g.Type().(*types.Pointer).Elem()
	var v Value
	if isAgg(et) {
		v = p.zero(et)
	} else {
		v = &Cell{v: p.zero(et), id: p.newID()}
	}
	p.globals[g] = v
	if o, ok := p.globalOverride(g); ok {
		r := p.races
		p.races = nil
		p.store(et, v, o)
		p.races = r
	}
	return v
}

// ensureInit runs a package's initialiser once per path, on first use.
func (p *Path) ensureInit(pkg *ssa.Package) {
	if pkg == nil || p.initDone[pkg] {
		return
	}
	p.initDone[pkg] = true
	path := pkg.Pkg.Path()
	if !p.eng.wantInit(path) {
		return
	}
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	old := p.inInit
	p.inInit = true
	p.initNow = fn
	// initialisation happens before everything
	r, pre := p.races, p.preempt
	p.races, p.preempt = nil, 0
	p.callFn(fn, nil, nil)
	p.races, p.preempt = r, pre
	p.inInit = old
}

// load reads through a pointer.
func (p *Path) load(t types.Type, ptr Value) Value {
	if p.races != nil {
		p.races.access(p, ptr, false)
	}
	switch x := ptr.(type) {
	case *Cell:
		return x.v
	case FieldPtr:
		return x.s.f[x.i]
	case ElemPtr:
		return x.a.e[x.i]
	case *Struct, *Array, *Opaque:
		return p.copyAgg(x)
	case nil:
		p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("load %T", ptr))
}

func (p *Path) store(t types.Type, ptr Value, v Value) {
	if p.races != nil {
		p.races.access(p, ptr, true)
	}
	switch x := ptr.(type) {
	case *Cell:
		x.v = v
	case FieldPtr:
		x.s.f[x.i] = v
	case ElemPtr:
		x.a.e[x.i] = v
	case *Struct, *Array, *Opaque:
		p.assignInto(x, v)
	case nil:
		p.runtimePanic("invalid memory address or nil pointer dereference")
	default:
		panic(fmt.Sprintf("store %T", ptr))
	}
}

func (p *Path) fieldAddr(s *Struct, i int) Value {
	if aggMask(s.typ)[i] {
		return s.f[i]
	}
	return FieldPtr{s, i}
}

func (p *Path) elemAddr(a *Array, i int) Value {
	if isAgg(a.elem) {
		return a.e[i]
	}
	return ElemPtr{a, i}
}

// call invokes a function value.
func (p *Path) call(fnv Value, args []Value) Value {
	switch fn := fnv.(type) {
	case *ssa.Function:
		return p.callFn(fn, args, nil)
	case *Closure:
		return p.callFn(fn.fn, args, fn.env)
	case hostFn:
		return fn(p, args)
	case nil:
		p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("call %T", fnv))
}

type hostFn func(p *Path, args []Value) Value

func (p *Path) callFn(fn *ssa.Function, args []Value, env []Value) (ret Value) {
	if in := p.eng.intrinsic(fn); in != nil {
		p.curFn = append(p.curFn, fn)
		r := in(p, args)
		p.curFn = p.curFn[:len(p.curFn)-1]
		if r != notIntrinsic {
			return r
		}
	}
	if fn.Blocks == nil {
		p.unsupported("external function %s", fn)
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic == "package initializer" {
		if p.initNow != fn {
			p.ensureInit(fn.Pkg)
			return nil
		}
		p.initNow = nil
	}
	if len(p.curFn) > 300 {
		p.unsupported("call depth")
	}
	p.eng.encoded(fn)
	if fn.Pkg != nil && !p.initDone[fn.Pkg] {
		p.ensureInit(fn.Pkg)
	}
	f := &frame{p: p, fn: fn, fi: infoOf(fn)}
	f.regs = make([]Value, f.fi.n)
	copy(f.regs, args)
	copy(f.regs[len(fn.Params):], env)
	depth := len(p.curFn)
	p.curFn = append(p.curFn, fn)
	if fn.Recover == nil && !hasDefer(fn) {
		ret = f.run(fn.Blocks[0])
		p.curFn = p.curFn[:depth]
		return ret
	}
	ret = f.runProtected()
	p.curFn = p.curFn[:depth]
	return ret
}

var deferCache sync.Map

func hasDefer(fn *ssa.Function) bool {
	if v, ok := deferCache.Load(fn); ok {
		return v.(bool)
	}
	r := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	deferCache.Store(fn, r)
	return r
}

func (f *frame) runProtected() (ret Value) {
	gp := f.catch(func() { ret = f.run(f.fn.Blocks[0]) })
	if gp == nil {
		return ret
	}
	f.panicking = gp
	f.runDefers()
	if f.panicking != nil {
		panic(f.panicking)
	}
	if f.fn.Recover != nil {
		return f.run(f.fn.Recover)
	}
	return f.p.zeroResults(f.fn)
}

func (p *Path) zeroResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(rs.At(0).Type())
	}
	return p.zero(rs)
}

func (f *frame) catch(do func()) (gp *GoPanic) {
	p := f.p
	depth := len(p.curFn)
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(*GoPanic); ok {
				p.curFn = p.curFn[:depth]
				gp = x
				return
			}
			panic(e)
		}
	}()
	do()
	return nil
}

func (f *frame) runDefers() {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		gp := f.catch(func() {
			f.p.pushPanicFrame(f)
			f.p.callDeferred(d)
			f.p.popPanicFrame()
		})
		if gp != nil {
			f.p.popPanicFrame()
			f.panicking = gp
		}
	}
}

// frames whose deferred calls are currently running, innermost last
func (p *Path) pushPanicFrame(f *frame) { p.cur.pframes = append(p.cur.pframes, f) }
func (p *Path) popPanicFrame()          { p.cur.pframes = p.cur.pframes[:len(p.cur.pframes)-1] }

func (p *Path) callDeferred(d deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		p.builtin(b, d.args, nil)
		return
	}
	p.call(d.fn, d.args)
}

func (f *frame) run(b *ssa.BasicBlock) Value {
	p := f.p
	var prev *ssa.BasicBlock
	for {
		// phis evaluated in parallel
		i := 0
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[0].(*ssa.Phi); ok {
				var pi int
				for k, pr := range b.Preds {
					if pr == prev {
						pi = k
						break
					}
				}
				var vals []Value
				for i < len(b.Instrs) {
					ph, ok := b.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, f.get(ph.Edges[pi]))
					i++
				}
				for k := 0; k < i; k++ {
					f.set(b.Instrs[k].(*ssa.Phi), vals[k])
				}
			}
		}
		var next *ssa.BasicBlock
		for ; i < len(b.Instrs); i++ {
			p.steps++
			if p.steps > p.maxSteps {
				panic(&pathAbort{abSteps, "step limit" + p.where()})
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.DebugRef:
			case *ssa.If:
				if p.mustBool(f.get(in.Cond)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					return nil
				case 1:
					return f.get(in.Results[0])
				}
				t := make(Tuple, len(in.Results))
				for k, r := range in.Results {
					t[k] = f.get(r)
				}
				return t
			case *ssa.Panic:
				v := f.get(in.X)
				panic(&GoPanic{v: v, stack: p.stackStr()})
			case *ssa.RunDefers:
				f.panicking = nil
				f.runDefers()
				if f.panicking != nil {
					gp := f.panicking
					f.panicking = nil
					panic(gp)
				}
			case *ssa.Store:
				p.store(in.Val.Type(), f.get(in.Addr), f.get(in.Val))
			case *ssa.MapUpdate:
				p.mapSet(f.get(in.Map), f.get(in.Key), f.get(in.Value))
			case *ssa.Send:
				p.chanSend(f.get(in.Chan), f.get(in.X))
			case *ssa.Go:
				fn, args := f.callTarget(&in.Call)
				p.spawn(fn, args)
			case *ssa.Defer:
				fn, args := f.callTarget(&in.Call)
				f.defers = append(f.defers, deferred{fn: fn, args: args})
			case ssa.Value:
				f.set(in, f.eval(in))
			default:
				p.unsupported("instruction %T", in)
			}
		}
		if next == nil {
			p.unsupported("fell off block in %s", f.fn)
		}
		prev, b = b, next
	}
}

func (f *frame) callTarget(c *ssa.CallCommon) (Value, []Value) {
	p := f.p
	var args []Value
	if c.IsInvoke() {
		recv := f.get(c.Value)
		if recv == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		ifc := recv.(*Iface)
		if h, ok := ifc.v.(hostMethods); ok {
			m := h.method(c.Method.Name())
			if m == nil {
				p.unsupported("host method %s", c.Method.Name())
			}
			for _, a := range c.Args {
				args = append(args, f.get(a))
			}
			return hostFn(m), args
		}
		fn := p.eng.prog.LookupMethod(ifc.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			p.unsupported("no method %s on %v", c.Method.Name(), ifc.t)
		}
		args = append(args, ifc.v)
		for _, a := range c.Args {
			args = append(args, f.get(a))
		}
		return fn, args
	}
	for _, a := range c.Args {
		args = append(args, f.get(a))
	}
	return f.get(c.Value), args
}

type hostMethods interface {
	method(name string) func(p *Path, args []Value) Value
}

func (f *frame) eval(in ssa.Value) Value {
	p := f.p
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		if isAgg(et) {
			return p.zero(et)
		}
		return &Cell{v: p.zero(et), id: p.newID()}
	case *ssa.BinOp:
		return p.binop(x.Op, x.X.Type(), f.get(x.X), f.get(x.Y), x.Y.Type())
	case *ssa.UnOp:
		v := f.get(x.X)
		switch x.Op {
		case token.MUL:
			return p.load(x.Type(), v)
		case token.NOT:
			if b, ok := v.(bool); ok {
				return !b
			}
			return fromTerm(p.pool.Not(v.(*Term)))
		case token.SUB:
			if fl, ok := v.(float64); ok {
				return -fl
			}
			w, _ := widthOf(x.Type())
			if u, ok := v.(uint64); ok {
				return maskU(-u, w)
			}
			return fromTerm(p.pool.Neg(v.(*Term)))
		case token.XOR:
			w, _ := widthOf(x.Type())
			if u, ok := v.(uint64); ok {
				return maskU(^u, w)
			}
			return fromTerm(p.pool.BNot(v.(*Term)))
		case token.ARROW:
			val, ok := p.chanRecv(v, x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				return Tuple{val, ok}
			}
			return val
		}
		p.unsupported("unop %v", x.Op)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			var args []Value
			for _, a := range x.Call.Args {
				args = append(args, f.get(a))
			}
			return p.builtin(b, args, &x.Call)
		}
		fn, args := f.callTarget(&x.Call)
		return p.call(fn, args)
	case *ssa.ChangeInterface:
		return f.get(x.X)
	case *ssa.ChangeType:
		return f.get(x.X)
	case *ssa.Convert:
		return p.convert(x.X.Type(), x.Type(), f.get(x.X))
	case *ssa.MultiConvert:
		return p.convert(x.X.Type(), x.Type(), f.get(x.X))
	case *ssa.Extract:
		return f.get(x.Tuple).(Tuple)[x.Index]
	case *ssa.Field:
		return f.get(x.X).(*Struct).f[x.Field]
	case *ssa.FieldAddr:
		b := f.get(x.X)
		if b == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if o, ok := b.(*Opaque); ok {
			if t, ok := o.v.(*timerV); ok {
				// the only exported field, C
				if t.ch == nil {
					return &Cell{id: p.newID()}
				}
				return &Cell{v: t.ch, id: p.newID()}
			}
		}
		s, ok := b.(*Struct)
		if !ok {
			p.unsupported("field address in %T (%v)", b, x.X.Type())
		}
		return p.fieldAddr(s, x.Field)
	case *ssa.Index:
		return p.index(f.get(x.X), f.get(x.Index), x.Index.Type())
	case *ssa.IndexAddr:
		return p.indexAddr(f.get(x.X), f.get(x.Index), x.Index.Type())
	case *ssa.Lookup:
		c := f.get(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return p.index(c, f.get(x.Index), x.Index.Type())
		}
		v, ok := p.mapGet(c, f.get(x.Index))
		if !ok {
			v = p.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{v, ok}
		}
		return v
	case *ssa.MakeChan:
		n := p.Concrete(f.get(x.Size))
		return &Chan{cap: int(n), id: p.newID()}
	case *ssa.MakeClosure:
		cl := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cl.env = append(cl.env, f.get(b))
		}
		return cl
	case *ssa.MakeInterface:
		return &Iface{t: x.X.Type(), v: f.get(x.X)}
	case *ssa.MakeMap:
		return &Map{idx: map[any]*mapEntry{}, id: p.newID(), et: x.Type().Underlying().(*types.Map)}
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := p.sizeArg(f.get(x.Len), x.Len.Type(), "len")
		c := p.sizeArg(f.get(x.Cap), x.Cap.Type(), "cap")
		if c < n {
			p.runtimePanic("makeslice: cap out of range")
		}
		return p.makeSlice(et, n, c)
	case *ssa.Next:
		return p.next(f.get(x.Iter), x)
	case *ssa.Range:
		v := f.get(x.X)
		switch m := v.(type) {
		case *Map:
			it := &MapIter{m: m, perm: p.mapPerm != 0}
			for _, e := range m.ent {
				if !e.dead {
					it.left = append(it.left, e)
				}
			}
			if p.races != nil {
				p.races.access(p, m, false)
			}
			return it
		case nil:
			return &MapIter{m: &Map{idx: map[any]*mapEntry{}}}
		case string, *SymStr:
			return &StrIter{s: v}
		}
		p.unsupported("range over %T", v)
	case *ssa.Select:
		return p.selectStmt(f, x)
	case *ssa.Slice:
		return p.sliceOp(f, x)
	case *ssa.SliceToArrayPointer:
		s := f.get(x.X).(Slice)
		n := int(x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			p.runtimePanic("cannot convert slice with length to array or pointer to array")
		}
		if s.a == nil {
			return nil
		}
		if s.off == 0 && len(s.a.e) == n {
			return s.a
		}
		return p.arrayView(s, n)
	case *ssa.TypeAssert:
		return p.typeAssert(x, f.get(x.X))
	case *ssa.Phi:
		panic("phi")
	}
	p.unsupported("value %T", in)
	return nil
}

// arrayView: an array pointer into the middle of a slice. Supported read-only
// by copying; writes through it would be lost, so only used with conversions
// that load immediately.
func (p *Path) arrayView(s Slice, n int) Value {
	a := &Array{elem: s.a.elem, id: p.newID()}
	a.e = s.a.e[s.off : s.off+n : s.off+n]
	return a
}

func (p *Path) sizeArg(v Value, t types.Type, what string) int {
	w, signed := widthOf(t)
	if x, ok := v.(*Term); ok {
		// a negative or huge size panics
		lim := p.pool.Const(w, 1<<20)
		if w <= 20 {
			return int(p.Concrete(v))
		}
		if !p.Decide(p.pool.Cmp(OUle, x, lim)) {
			p.runtimePanic("makeslice: " + what + " out of range")
		}
		return int(p.Concrete(v))
	}
	u := v.(uint64)
	if signed {
		if s := signX(u, w); s < 0 || s > 1<<32 {
			p.runtimePanic("makeslice: " + what + " out of range")
		}
	}
	if u > 1<<26 {
		p.unsupported("huge allocation %d", u)
	}
	return int(u)
}

func (p *Path) makeSlice(et types.Type, n, c int) Slice {
	a := &Array{elem: et, e: make([]Value, c), id: p.newID()}
	if isAgg(et) {
		for i := range a.e {
			a.e[i] = p.zero(et)
		}
	} else {
		z := p.zero(et)
		for i := range a.e {
			a.e[i] = z
		}
	}
	return Slice{a: a, len: n, cap: c}
}

// idx resolves an index against a length, with bounds check.
func (p *Path) idx(iv Value, it types.Type, n int, wantTerm bool) (int, *Term) {
	w, signed := widthOf(it)
	if t, ok := iv.(*Term); ok {
		tt := t
		if w < 64 {
			if signed {
				tt = p.pool.Sext(t, 64)
			} else {
				tt = p.pool.Zext(t, 64)
			}
		}
		if !p.Decide(p.pool.Cmp(OUlt, tt, p.pool.Const(64, uint64(n)))) {
			p.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
		}
		if wantTerm {
			return -1, tt
		}
		return int(p.Concrete(iv)), nil
	}
	u := iv.(uint64)
	i := int64(u)
	if signed {
		i = signX(u, w)
	}
	if i < 0 || i >= int64(n) {
		p.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i), nil
}

func (p *Path) index(c, iv Value, it types.Type) Value {
	var e []Value
	switch x := c.(type) {
	case *Array:
		e = x.e
	case string:
		i, t := p.idx(iv, it, len(x), true)
		if t == nil {
			return uint64(x[i])
		}
		return p.muxBytes(p.sliceBytes(x), t)
	case *SymStr:
		e = x.b
	default:
		p.unsupported("index of %T", c)
	}
	i, t := p.idx(iv, it, len(e), true)
	if t == nil {
		return e[i]
	}
	return p.muxBytes(e, t)
}

func (p *Path) muxBytes(e []Value, t *Term) Value {
	w := 0
	for _, v := range e {
		switch x := v.(type) {
		case uint64:
		case *Term:
			w = x.w
		default:
			i := p.Concrete(t)
			return e[i]
		}
	}
	if w == 0 {
		w = 64
		mx := uint64(0)
		for _, v := range e {
			if u := v.(uint64); u > mx {
				mx = u
			}
		}
		if mx < 256 {
			w = 8
		}
	}
	if len(e) > 512 {
		return e[p.Concrete(t)]
	}
	r := p.term(e[len(e)-1], w)
	for i := len(e) - 2; i >= 0; i-- {
		r = p.pool.Ite(p.pool.Eq(t, p.pool.Const(64, uint64(i))), p.term(e[i], w), r)
	}
	return fromTerm(r)
}

func (p *Path) indexAddr(c, iv Value, it types.Type) Value {
	switch x := c.(type) {
	case *Array:
		i, _ := p.idx(iv, it, len(x.e), false)
		return p.elemAddr(x, i)
	case Slice:
		i, _ := p.idx(iv, it, x.len, false)
		return p.elemAddr(x.a, x.off+i)
	case nil:
		p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	p.unsupported("index address of %T", c)
	return nil
}

func (p *Path) sliceOp(f *frame, x *ssa.Slice) Value {
	v := f.get(x.X)
	get := func(e ssa.Value, def int) int {
		if e == nil {
			return def
		}
		iv := f.get(e)
		w, signed := widthOf(e.Type())
		if t, ok := iv.(*Term); ok {
			// out-of-range bounds panic; keep to feasible small values
			tt := t
			if w < 64 {
				if signed {
					tt = p.pool.Sext(t, 64)
				} else {
					tt = p.pool.Zext(t, 64)
				}
			}
			if !p.Decide(p.pool.Cmp(OUle, tt, p.pool.Const(64, 1<<16))) {
				p.runtimePanic("slice bounds out of range")
			}
			return int(p.Concrete(iv))
		}
		if signed {
			return int(signX(iv.(uint64), w))
		}
		return int(iv.(uint64))
	}
	switch s := v.(type) {
	case string, *SymStr:
		b := p.sliceBytes(v)
		lo, hi := get(x.Low, 0), get(x.High, len(b))
		if hi < 0 || hi > len(b) || lo < 0 || lo > hi {
			p.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(b)))
		}
		if str, ok := v.(string); ok {
			return str[lo:hi]
		}
		return strVal(b[lo:hi])
	case Slice:
		lo, hi := get(x.Low, 0), get(x.High, s.len)
		mx := get(x.Max, s.cap)
		if mx < 0 || mx > s.cap || hi < 0 || hi > mx || lo < 0 || lo > hi {
			p.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.cap))
		}
		if s.a == nil {
			return Slice{}
		}
		return Slice{a: s.a, off: s.off + lo, len: hi - lo, cap: mx - lo}
	case *Array:
		lo, hi := get(x.Low, 0), get(x.High, len(s.e))
		mx := get(x.Max, len(s.e))
		if mx < 0 || mx > len(s.e) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			p.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(s.e)))
		}
		return Slice{a: s, off: lo, len: hi - lo, cap: mx - lo}
	case nil:
		p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	p.unsupported("slice of %T", v)
	return nil
}

func (p *Path) typeAssert(x *ssa.TypeAssert, v Value) Value {
	ok := false
	var r Value
	ifc, _ := v.(*Iface)
	if ifc != nil {
		if it, is := x.AssertedType.Underlying().(*types.Interface); is {
			if _, host := ifc.v.(hostMethods); host {
				ok = true
			} else {
				ok = types.Implements(ifc.t, it)
			}
			r = ifc
		} else {
			ok = types.Identical(ifc.t, x.AssertedType)
			r = ifc.v
		}
	}
	if !ok {
		if !x.CommaOk {
			p.runtimePanic("interface conversion")
		}
		if _, is := x.AssertedType.Underlying().(*types.Interface); is {
			return Tuple{nil, false}
		}
		return Tuple{p.zero(x.AssertedType), false}
	}
	if x.CommaOk {
		return Tuple{r, true}
	}
	return r
}

func (p *Path) next(itv Value, x *ssa.Next) Value {
	switch it := itv.(type) {
	case *MapIter:
		// skip deleted; entries added during iteration are not visited (allowed by Go)
		live := it.left[:0:0]
		for _, e := range it.left {
			if !e.dead {
				live = append(live, e)
			}
		}
		it.left = live
		if len(live) == 0 {
			return Tuple{false, nil, nil}
		}
		i := 0
		if it.perm {
			switch p.mapPerm {
			case 1:
				i = len(live) - 1
			case 2:
				i = p.Choose(len(live))
			}
		}
		e := live[i]
		it.left = append(append([]*mapEntry{}, live[:i]...), live[i+1:]...)
		return Tuple{true, e.k, e.v}
	case *StrIter:
		b := p.sliceBytes(it.s)
		if it.i >= len(b) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		i := it.i
		c, ok := b[i].(uint64)
		if !ok {
			// symbolic: ASCII or not
			t := b[i].(*Term)
			if p.Decide(p.pool.Cmp(OUlt, t, p.pool.Const(8, 0x80))) {
				it.i++
				return Tuple{true, uint64(i), fromTerm(p.pool.Zext(t, 32))}
			}
			p.unsupported("range over symbolic non-ASCII string")
		}
		if c < 0x80 {
			it.i++
			return Tuple{true, uint64(i), c}
		}
		var raw []byte
		for k := i; k < len(b) && k < i+4; k++ {
			u, ok := b[k].(uint64)
			if !ok {
				break
			}
			raw = append(raw, byte(u))
		}
		r, n := utf8.DecodeRune(raw)
		it.i += n
		return Tuple{true, uint64(i), maskU(uint64(r), 32)}
	}
	p.unsupported("next on %T", itv)
	return nil
}

// ---- operators ----

func (p *Path) eqVals(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return p.strEq(a, b)
		}
	case *types.Interface:
		return p.ifaceEq(a, b)
	case *types.Struct:
		if isOpaqueType(t) {
			x, y := a.(*Opaque), b.(*Opaque)
			return p.opaqueEq(x, y)
		}
		x, y := a.(*Struct), b.(*Struct)
		r := p.pool.T
		for i := range x.f {
			e := p.eqVals(u.Field(i).Type(), x.f[i], y.f[i])
			r = p.pool.And(r, p.bterm(e))
			if r.isFalse() {
				return false
			}
		}
		return fromTerm(r)
	case *types.Array:
		x, y := a.(*Array), b.(*Array)
		if w, _ := widthOf(u.Elem()); w == 8 {
			return p.bytesEq(x.e, y.e)
		}
		r := p.pool.T
		for i := range x.e {
			r = p.pool.And(r, p.bterm(p.eqVals(u.Elem(), x.e[i], y.e[i])))
		}
		return fromTerm(r)
	}
	switch x := a.(type) {
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		y := b.(*Term)
		return fromTerm(p.pool.Eq(p.pool.Const(y.w, x), y))
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return fromTerm(p.pool.Eq(p.pool.Bool(x), b.(*Term)))
	case *Term:
		if x.w == 0 {
			return fromTerm(p.pool.Eq(x, p.bterm(b)))
		}
		return fromTerm(p.pool.Eq(x, p.term(b, x.w)))
	case float64:
		return x == b.(float64)
	case Slice:
		// comparison with nil only
		if y, ok := b.(Slice); ok {
			return x.a == nil && y.a == nil
		}
		return x.a == nil
	case nil:
		if y, ok := b.(Slice); ok {
			return y.a == nil
		}
		return b == nil
	case *Closure:
		return b == a
	}
	return a == b
}

func (p *Path) opaqueEq(x, y *Opaque) Value {
	if x.v == nil && y.v == nil {
		return true
	}
	switch xs := x.v.(type) {
	case *FF:
		ys, _ := y.v.(*FF)
		if ys == nil {
			ys = p.al.zero
		}
		return p.eqFF(xs, ys)
	}
	if _, ok := y.v.(*FF); ok {
		return p.opaqueEq(y, x)
	}
	if x.v == nil || y.v == nil {
		return false
	}
	p.unsupported("== on opaque %v", x.typ)
	return nil
}

func (p *Path) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	return p.bytesEq(p.sliceBytes(a), p.sliceBytes(b))
}

func (p *Path) ifaceEq(a, b Value) Value {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, ok1 := a.(*Iface)
	y, ok2 := b.(*Iface)
	if !ok1 || !ok2 {
		return a == b
	}
	if !types.Identical(x.t, y.t) {
		return false
	}
	return p.eqVals(x.t, x.v, y.v)
}

var opMap = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OBAnd, token.OR: OBOr, token.XOR: OBXor}

func (p *Path) binop(op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	switch op {
	case token.EQL:
		if types.IsInterface(t) != types.IsInterface(bt) {
			if types.IsInterface(t) {
				b = &Iface{t: bt, v: b}
			} else {
				a = &Iface{t: t, v: a}
				t = bt
			}
		}
		return p.eqVals(t, a, b)
	case token.NEQ:
		r := p.binop(token.EQL, t, a, b, bt)
		if x, ok := r.(bool); ok {
			return !x
		}
		return fromTerm(p.pool.Not(r.(*Term)))
	}
	if bs, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case bs.Info()&types.IsString != 0:
			return p.strOp(op, a, b)
		case bs.Info()&types.IsFloat != 0:
			x, y := a.(float64), b.(float64)
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		case bs.Info()&types.IsBoolean != 0:
			x, y := p.bterm(a), p.bterm(b)
			switch op {
			case token.AND:
				return fromTerm(p.pool.And(x, y))
			case token.OR:
				return fromTerm(p.pool.Or(x, y))
			}
		}
	}
	w, signed := widthOf(t)
	if w == 0 {
		p.unsupported("binop %v on %v", op, t)
	}
	if op == token.SHL || op == token.SHR {
		return p.shift(op, w, signed, a, b, bt)
	}
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return maskU(x+y, w)
		case token.SUB:
			return maskU(x-y, w)
		case token.MUL:
			return maskU(x*y, w)
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		case token.QUO, token.REM:
			if y == 0 {
				p.runtimePanic("integer divide by zero")
			}
			if signed {
				sx, sy := signX(x, w), signX(y, w)
				if sy == -1 {
					if op == token.QUO {
						return maskU(uint64(-sx), w)
					}
					return uint64(0)
				}
				if op == token.QUO {
					return maskU(uint64(sx/sy), w)
				}
				return maskU(uint64(sx%sy), w)
			}
			if op == token.QUO {
				return x / y
			}
			return x % y
		}
		if signed {
			sx, sy := signX(x, w), signX(y, w)
			switch op {
			case token.LSS:
				return sx < sy
			case token.LEQ:
				return sx <= sy
			case token.GTR:
				return sx > sy
			case token.GEQ:
				return sx >= sy
			}
		}
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	ta, tb := p.term(a, w), p.term(b, w)
	pl := p.pool
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		return fromTerm(pl.Bin(opMap[op], ta, tb))
	case token.AND_NOT:
		return fromTerm(pl.Bin(OBAnd, ta, pl.BNot(tb)))
	case token.QUO, token.REM:
		if p.Decide(pl.Eq(tb, pl.Const(w, 0))) {
			p.runtimePanic("integer divide by zero")
		}
		switch {
		case signed && op == token.QUO:
			return fromTerm(pl.Bin(OSDiv, ta, tb))
		case signed:
			return fromTerm(pl.Bin(OSRem, ta, tb))
		case op == token.QUO:
			return fromTerm(pl.Bin(OUDiv, ta, tb))
		}
		return fromTerm(pl.Bin(OURem, ta, tb))
	}
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return fromTerm(pl.Cmp(lt, ta, tb))
	case token.LEQ:
		return fromTerm(pl.Cmp(le, ta, tb))
	case token.GTR:
		return fromTerm(pl.Cmp(lt, tb, ta))
	case token.GEQ:
		return fromTerm(pl.Cmp(le, tb, ta))
	}
	p.unsupported("binop %v", op)
	return nil
}

func (p *Path) shift(op token.Token, w int, signed bool, a, b Value, bt types.Type) Value {
	bw, bs := widthOf(bt)
	if y, ok := b.(uint64); ok {
		if bs && signX(y, bw) < 0 {
			p.runtimePanic("negative shift amount")
		}
		if x, ok := a.(uint64); ok {
			if op == token.SHL {
				if y >= 64 {
					return uint64(0)
				}
				return maskU(x<<y, w)
			}
			if signed {
				if y > 63 {
					y = 63
				}
				return maskU(uint64(signX(x, w)>>y), w)
			}
			if y >= 64 {
				return uint64(0)
			}
			return x >> y
		}
		t := a.(*Term)
		if y > uint64(w) {
			y = uint64(w)
		}
		c := p.pool.Const(w, y)
		if maskU(y, w) != y {
			c = p.pool.BigConst(w, mask(w))
		}
		switch {
		case op == token.SHL:
			return fromTerm(p.pool.Bin(OShl, t, c))
		case signed:
			return fromTerm(p.pool.Bin(OAshr, t, c))
		}
		return fromTerm(p.pool.Bin(OLshr, t, c))
	}
	tb := b.(*Term)
	if bs && p.Decide(p.pool.Cmp(OSlt, tb, p.pool.Const(bw, 0))) {
		p.runtimePanic("negative shift amount")
	}
	W := w
	if bw > W {
		W = bw
	}
	ta := p.term(a, w)
	var x *Term
	if signed {
		x = p.pool.Sext(ta, W)
	} else {
		x = p.pool.Zext(ta, W)
	}
	y := p.pool.Zext(tb, W)
	var r *Term
	switch {
	case op == token.SHL:
		r = p.pool.Bin(OShl, x, y)
	case signed:
		r = p.pool.Bin(OAshr, x, y)
	default:
		r = p.pool.Bin(OLshr, x, y)
	}
	return fromTerm(p.pool.Extract(r, w-1, 0))
}

func (p *Path) strOp(op token.Token, a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return x + y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	ba, bb := p.sliceBytes(a), p.sliceBytes(b)
	if op == token.ADD {
		return strVal(append(append([]Value{}, ba...), bb...))
	}
	// lexicographic comparison as a term
	n := len(ba)
	if len(bb) < n {
		n = len(bb)
	}
	cmpTail := func(strict bool) *Term {
		if strict {
			return p.pool.Bool(len(ba) < len(bb))
		}
		return p.pool.Bool(len(ba) <= len(bb))
	}
	less := func(strict bool) *Term {
		r := cmpTail(strict)
		for i := n - 1; i >= 0; i-- {
			u, v := p.term(ba[i], 8), p.term(bb[i], 8)
			r = p.pool.Ite(p.pool.Eq(u, v), r, p.pool.Cmp(OUlt, u, v))
		}
		return r
	}
	switch op {
	case token.LSS:
		return fromTerm(less(true))
	case token.LEQ:
		return fromTerm(less(false))
	case token.GTR:
		return fromTerm(p.pool.Not(less(false)))
	case token.GEQ:
		return fromTerm(p.pool.Not(less(true)))
	}
	p.unsupported("string op %v", op)
	return nil
}

func (p *Path) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if tb != nil && tb.Kind() == types.UnsafePointer || fb != nil && fb.Kind() == types.UnsafePointer {
		return v
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			return string(rune(signX(p.Concrete(v), 32)))
		}
		s := v.(Slice)
		if w, _ := widthOf(fu.(*types.Slice).Elem()); w == 32 {
			var rs []rune
			for _, e := range p.sliceBytes(s) {
				rs = append(rs, rune(p.Concrete(e)))
			}
			return string(rs)
		}
		return strVal(p.sliceBytes(s))
	}
	if ts, ok := tu.(*types.Slice); ok {
		if w, _ := widthOf(ts.Elem()); w == 32 {
			str, ok := v.(string)
			if !ok {
				p.unsupported("symbolic []rune conversion")
			}
			s := p.makeSlice(ts.Elem(), 0, 0)
			for _, r := range str {
				s.a.e = append(s.a.e, uint64(uint32(r)))
			}
			s.len, s.cap = len(s.a.e), len(s.a.e)
			return s
		}
		return p.newBytes(p.sliceBytes(v))
	}
	if fb == nil || tb == nil {
		return v
	}
	if tb.Info()&types.IsFloat != 0 {
		if x, ok := v.(float64); ok {
			if tb.Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		}
		w, s := widthOf(from)
		u := p.Concrete(v)
		if s {
			return float64(signX(u, w))
		}
		return float64(u)
	}
	tw, ts := widthOf(to)
	if x, ok := v.(float64); ok {
		if ts {
			return maskU(uint64(int64(x)), tw)
		}
		return maskU(uint64(x), tw)
	}
	fw, fs := widthOf(from)
	if fw == 0 || tw == 0 {
		p.unsupported("convert %v to %v", from, to)
	}
	if u, ok := v.(uint64); ok {
		if fs {
			return maskU(uint64(signX(u, fw)), tw)
		}
		return maskU(u, tw)
	}
	t := v.(*Term)
	if fs {
		return fromTerm(p.pool.Sext(t, tw))
	}
	return fromTerm(p.pool.Zext(t, tw))
}

// ---- builtins ----

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need, esz int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < need {
		nc = need
	}
	if esz <= 0 {
		return nc
	}
	b := nc * esz
	for _, c := range sizeClasses {
		if c >= b {
			return c / esz
		}
	}
	return ((b + 8191) / 8192 * 8192) / esz
}

func (p *Path) builtin(b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return uint64(x.len)
		case string:
			return uint64(len(x))
		case *SymStr:
			return uint64(len(x.b))
		case *Map:
			if p.races != nil {
				p.races.access(p, x, false)
			}
			return uint64(x.n)
		case *Array:
			return uint64(len(x.e))
		case *Chan:
			return uint64(len(x.buf))
		case nil:
			return uint64(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(x.cap)
		case *Array:
			return uint64(len(x.e))
		case *Chan:
			return uint64(x.cap)
		case nil:
			return uint64(0)
		}
	case "append":
		return p.appendOp(args, cc)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		if s, ok := args[1].(Slice); ok {
			if s.a != nil {
				src = s.a.e[s.off : s.off+s.len]
			}
		} else {
			src = p.sliceBytes(args[1])
		}
		n := len(src)
		if d.len < n {
			n = d.len
		}
		if n == 0 {
			return uint64(0)
		}
		if isAgg(d.a.elem) {
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = p.copyAgg(src[i])
			}
			for i := 0; i < n; i++ {
				p.assignInto(d.a.e[d.off+i], tmp[i])
			}
		} else {
			if p.races != nil {
				for i := 0; i < n; i++ {
					p.races.access(p, ElemPtr{d.a, d.off + i}, true)
				}
			}
			copy(d.a.e[d.off:d.off+n], append([]Value{}, src[:n]...))
		}
		return uint64(n)
	case "delete":
		p.mapDelete(args[0], args[1])
		return nil
	case "clear":
		switch m := args[0].(type) {
		case *Map:
			for _, e := range m.ent {
				e.dead = true
			}
			m.ent, m.n, m.sym = nil, 0, 0
			m.idx = map[any]*mapEntry{}
		case Slice:
			if m.a != nil {
				for i := 0; i < m.len; i++ {
					if isAgg(m.a.elem) {
						p.assignInto(m.a.e[m.off+i], p.zero(m.a.elem))
					} else {
						m.a.e[m.off+i] = p.zero(m.a.elem)
					}
				}
			}
		}
		return nil
	case "close":
		p.chanClose(args[0])
		return nil
	case "panic":
		panic(&GoPanic{v: args[0], stack: p.stackStr()})
	case "recover":
		// the frame that is running deferred calls
		pf := p.cur.pframes
		if len(pf) == 0 {
			return nil
		}
		f := pf[len(pf)-1]
		if f.panicking == nil {
			return nil
		}
		v := f.panicking.v
		f.panicking = nil
		return v
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		for i := 1; i < len(args); i++ {
			c := p.binop(token.LSS, t, args[i], r, t)
			if b.Name() == "max" {
				c = p.binop(token.GTR, t, args[i], r, t)
			}
			if p.mustBool(c) {
				r = args[i]
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0] == nil {
			p.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(p.Concrete(args[1]))
		if n == 0 {
			return ""
		}
		e := args[0].(ElemPtr)
		return strVal(e.a.e[e.i : e.i+n])
	case "StringData", "SliceData":
		switch s := args[0].(type) {
		case Slice:
			if s.a == nil {
				return nil
			}
			if s.off >= len(s.a.e) {
				return ElemPtr{s.a, s.off}
			}
			return p.elemAddr(s.a, s.off)
		default:
			sl := p.newBytes(p.sliceBytes(args[0]))
			return ElemPtr{sl.a, 0}
		}
	case "Slice": // unsafe.Slice
		n := int(p.Concrete(args[1]))
		if args[0] == nil {
			return Slice{}
		}
		e := args[0].(ElemPtr)
		return Slice{a: e.a, off: e.i, len: n, cap: n}
	}
	p.unsupported("builtin %s", b.Name())
	return nil
}

func elemSize(t types.Type) int {
	defer func() { recover() }()
	return int(types.SizesFor("gc", "amd64").Sizeof(t))
}

func (p *Path) appendOp(args []Value, cc *ssa.CallCommon) Value {
	s, _ := args[0].(Slice)
	if len(args) == 1 {
		return s
	}
	var add []Value
	switch x := args[1].(type) {
	case Slice:
		if x.a != nil {
			add = x.a.e[x.off : x.off+x.len]
		}
	default:
		add = p.sliceBytes(args[1])
	}
	var et types.Type
	if s.a != nil {
		et = s.a.elem
	} else if cc != nil {
		et = cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	} else if x, ok := args[1].(Slice); ok && x.a != nil {
		et = x.a.elem
	} else {
		et = types.Typ[types.Uint8]
	}
	if len(add) == 0 {
		return s
	}
	agg := isAgg(et)
	cp := make([]Value, len(add))
	for i, v := range add {
		if agg {
			cp[i] = p.copyAgg(v)
		} else {
			cp[i] = v
		}
	}
	if s.len+len(cp) <= s.cap {
		if p.races != nil {
			for i := range cp {
				p.races.access(p, ElemPtr{s.a, s.off + s.len + i}, true)
			}
		}
		for i, v := range cp {
			if agg {
				p.assignInto(s.a.e[s.off+s.len+i], v)
			} else {
				s.a.e[s.off+s.len+i] = v
			}
		}
		s.len += len(cp)
		return s
	}
	nc := growCap(s.cap, s.len+len(cp), elemSize(et))
	n := p.makeSlice(et, s.len+len(cp), nc)
	for i := 0; i < s.len; i++ {
		v := s.a.e[s.off+i]
		if agg {
			v = p.copyAgg(v)
		}
		n.a.e[i] = v
	}
	for i, v := range cp {
		n.a.e[s.len+i] = v
	}
	return n
}

// ---- maps ----

// mapKey returns a Go-comparable key for concrete keys.
func (p *Path) mapKey(k Value) (any, bool) {
	switch x := k.(type) {
	case uint64, string, bool, float64:
		return x, true
	case *Term:
		return nil, false
	case *SymStr:
		return nil, false
	case *Iface:
		kk, ok := p.mapKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t.String(), kk}, true
	case *Struct:
		var parts []any
		m := aggMask(x.typ)
		for i, f := range x.f {
			if !m[i] {
				switch f.(type) {
				case *Struct, *Array, *Opaque, *Cell, *Map, *Chan:
					return nil, false
				}
			}
			kk, ok := p.mapKey(f)
			if !ok {
				return nil, false
			}
			parts = append(parts, kk)
		}
		return fmt.Sprint(parts), true
	case *Array:
		var parts []any
		for _, f := range x.e {
			kk, ok := p.mapKey(f)
			if !ok {
				return nil, false
			}
			parts = append(parts, kk)
		}
		return fmt.Sprint(parts), true
	case nil:
		return "nil", true
	case *Cell, *Map, *Chan, *Opaque, *Closure:
		return x, true
	}
	p.unsupported("map key %T", k)
	return nil, false
}

func (p *Path) keyPtr(m *Map, k Value) bool {
	_, isPtr := m.et.Key().Underlying().(*types.Pointer)
	return isPtr
}

func (p *Path) mapFind(m *Map, k Value) *mapEntry {
	var ck any
	var conc bool
	if p.keyPtr(m, k) {
		ck, conc = k, true
	} else {
		ck, conc = p.mapKey(k)
	}
	if conc {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.sym == 0 {
			return nil
		}
	}
	for _, e := range m.ent {
		if e.dead {
			continue
		}
		if conc {
			if _, c := p.mapKeyOf(m, e.k); c {
				continue
			}
		}
		if p.mustBool(p.eqVals(m.et.Key(), e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapKeyOf(m *Map, k Value) (any, bool) {
	if p.keyPtr(m, k) {
		return k, true
	}
	return p.mapKey(k)
}

func (p *Path) mapGet(mv, k Value) (Value, bool) {
	if mv == nil {
		return nil, false
	}
	m := mv.(*Map)
	if p.races != nil {
		p.races.access(p, m, false)
	}
	e := p.mapFind(m, k)
	if e == nil {
		return nil, false
	}
	return e.v, true
}

func (p *Path) mapSet(mv, k, v Value) {
	if mv == nil {
		panic(&GoPanic{v: &Iface{t: p.eng.rtErr, v: "assignment to entry in nil map"}, rt: true, stack: p.stackStr()})
	}
	m := mv.(*Map)
	if p.races != nil {
		p.races.access(p, m, true)
	}
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ent = append(m.ent, e)
	m.n++
	if ck, ok := p.mapKeyOf(m, k); ok {
		m.idx[ck] = e
	} else {
		m.sym++
	}
}

func (p *Path) mapDelete(mv, k Value) {
	if mv == nil {
		return
	}
	m := mv.(*Map)
	if p.races != nil {
		p.races.access(p, m, true)
	}
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	if ck, ok := p.mapKeyOf(m, e.k); ok {
		delete(m.idx, ck)
	} else {
		m.sym--
	}
	m.n--
	for i, x := range m.ent {
		if x == e {
			m.ent = append(append([]*mapEntry{}, m.ent[:i]...), m.ent[i+1:]...)
			break
		}
	}
}

var _ = big.NewInt
