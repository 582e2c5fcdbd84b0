package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// inputName numbers repeated inputs of the same name, as the native package does.
func (p *Path) inputName(v Value) string {
	n := p.goString(v)
	p.nameN[n]++
	return fmt.Sprintf("%s#%d", n, p.nameN[n])
}

func (p *Path) violation(label, msg string) {
	v := &Violation{Label: label, Msg: msg, Fn: p.fn.Name()}
	v.Trace = append([]string{}, p.trace...)
	// an unsatisfiable path is no violation
	if p.model == nil {
		p.ensureModel()
	}
	for seed := int64(1); seed <= 3; seed++ {
		v.Repl = append(v.Repl, p.replayData(seed, label))
	}
	v.Uncertain = p.uncertain
	p.violations = append(p.violations, v)
}

func (p *Path) assertV(c Value, label string) {
	p.assertsN++
	p.asserts[label]++
	switch x := c.(type) {
	case bool:
		if !x {
			if debugOn {
				p.logf("decisions %v", p.taken)
				for _, e := range p.encs {
					p.logf("enc %s l=%s b0=%v", e.kind, p.al.String(e.l), e.b[0])
				}
				p.logf("last bytesEq %s", p.lastNeq)
			}
			p.violation(label, "assertion fails on this path")
			panic(&pathAbort{abViolationEnd, label})
		}
	case *Term:
		r, m := p.sol.Check([]*Term{p.pool.Not(x)}, true)
		switch r {
		case Unsat:
			return
		case Sat:
			old := p.model
			p.model = m
			p.violation(label, "solver found a falsifying assignment")
			p.model = old
		default:
			p.eng.note("solver unknown on assertion " + label)
			p.eng.unknownAsserts(label)
		}
		p.Constrain(x)
	}
}

// catchPanic runs f and reports a Go panic.
func (p *Path) catchPanic(f func()) (gp *GoPanic) {
	depth := len(p.curFn)
	nf := len(p.cur.pframes)
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(*GoPanic); ok {
				p.curFn = p.curFn[:depth]
				p.cur.pframes = p.cur.pframes[:nf]
				gp = x
				return
			}
			panic(e)
		}
	}()
	f()
	return nil
}

func (p *Path) inputBV(name Value, w int) Value {
	nm := p.inputName(name)
	t := p.pool.Var("in:"+nm, w)
	p.inputs = append(p.inputs, &Input{Name: nm, Kind: "int", W: w, T: t})
	return t
}

func init() {
	v := func(n string, f intrinsicFn) { def(vsymP+n, f) }
	for _, x := range []struct {
		n string
		w int
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}} {
		w := x.w
		v(x.n, func(p *Path, a []Value) Value { return p.inputBV(a[0], w) })
	}
	v("Bool", func(p *Path, a []Value) Value {
		t := p.inputBV(a[0], 1).(*Term)
		return p.pool.Eq(t, p.pool.Const(1, 1))
	})
	v("Choose", func(p *Path, a []Value) Value {
		nm := p.inputName(a[0])
		c := p.Choose(int(p.Concrete(a[1])))
		p.inputs = append(p.inputs, &Input{Name: nm, Kind: "choice", C: uint64(c)})
		p.logf("%s=%d", nm, c)
		return uint64(c)
	})
	for _, which := range []struct {
		name string
		get  func(e *Engine) []int
	}{{"Length", (*Engine).lengths}, {"Count", (*Engine).counts}} {
		which := which
		v(which.name, func(p *Path, a []Value) Value {
			nm := p.inputName(a[0])
			max := int(p.Concrete(a[1]))
			set := map[int]bool{}
			sl, _ := a[2].(Slice)
			low := 0
			for i := 0; i < sl.len; i++ {
				l := int(p.Concrete(p.load(nil, ElemPtr{sl.a, sl.off + i})))
				set[l] = true
				if i == 0 || l < low {
					low = l
				}
			}
			for _, l := range which.get(p.eng) {
				if l <= max && l >= low {
					set[l] = true
				}
			}
			var ls []int
			for l := range set {
				ls = append(ls, l)
			}
			sort.Ints(ls)
			c := ls[p.Choose(len(ls))]
			p.inputs = append(p.inputs, &Input{Name: nm, Kind: "choice", C: uint64(c)})
			p.logf("%s=%d", nm, c)
			return uint64(c)
		})
	}
	v("Bytes", func(p *Path, a []Value) Value {
		nm := p.inputName(a[0])
		n := int(p.Concrete(a[1]))
		in := &Input{Name: nm, Kind: "bytes", N: n}
		for i := 0; i < n; i++ {
			in.Bs = append(in.Bs, p.pool.Var(fmt.Sprintf("in:%s:%d", nm, i), 8))
		}
		p.inputs = append(p.inputs, in)
		return p.newBytes(in.Bs)
	})
	v("Scalar", func(p *Path, a []Value) Value {
		nm := p.inputName(a[0])
		fv := p.al.NewVar(nm, VInput)
		f := p.al.VarNode(fv)
		p.inputs = append(p.inputs, &Input{Name: nm, Kind: "scalar", F: f})
		return p.newOpq(p.eng.scalarT, f)
	})
	v("Element", func(p *Path, a []Value) Value {
		nm := p.inputName(a[0])
		fv := p.al.NewVar(nm, VInput)
		f := p.al.VarNode(fv)
		k := p.pool.Var("in:tau:"+nm, 2)
		tau := p.pool.Concat(k, p.pool.Const(1, 0))
		p.inputs = append(p.inputs, &Input{Name: nm, Kind: "element", F: f, Tau: tau})
		return p.newElement(&PointV{f, tau})
	})
	v("Assume", func(p *Path, a []Value) Value {
		if b, ok := a[0].(bool); ok {
			if !b {
				panic(&pathAbort{abAssume, ""})
			}
			return nil
		}
		p.Constrain(a[0].(*Term))
		return nil
	})
	v("Assert", func(p *Path, a []Value) Value {
		p.assertV(a[0], p.goString(a[1]))
		return nil
	})
	v("Independent", func(p *Path, a []Value) Value {
		p.independent(p.goString(a[0]), p.ifaceArgs(a[1]))
		return nil
	})
	v("NextRand", func(p *Path, a []Value) Value {
		for _, x := range p.ifaceArgs(a[0]) {
			p.nextRand = append(p.nextRand, p.sc(x))
		}
		return nil
	})
	v("NoMoreRand", func(p *Path, a []Value) Value { p.nextRand = nil; return nil })
	v("FailRand", func(p *Path, a []Value) Value {
		p.randFail, p.randFailed, p.randShort = int(p.Concrete(a[0])), false, nil
		return nil
	})
	v("ShortRand", func(p *Path, a []Value) Value {
		p.randFail, p.randFailed = int(p.Concrete(a[0])), false
		p.randShort = append([]Value{}, p.sliceBytes(a[1])...)
		return nil
	})
	v("RandFailed", func(p *Path, a []Value) Value { return p.randFailed })
	v("Cover", func(p *Path, a []Value) Value {
		l := p.goString(a[0])
		if !p.covers[l] {
			p.covers[l] = true
			p.coverSeq = append(p.coverSeq, l)
		}
		return nil
	})
	v("Panics", func(p *Path, a []Value) Value {
		gp := p.catchPanic(func() { p.call(a[0], nil) })
		if gp != nil {
			p.logf("panic caught: %s", gp.text(p))
		}
		return gp != nil
	})
	v("Advance", func(p *Path, a []Value) Value { p.advance(a[0]); return nil })
	v("MapOrder", func(p *Path, a []Value) Value { p.mapPerm = int(p.Concrete(a[0])); return nil })
	v("Preempt", func(p *Path, a []Value) Value {
		p.preempt, p.delays, p.preempted = int(int64(p.Concrete(a[0]))), false, true
		return nil
	})
	v("Deviate", func(p *Path, a []Value) Value {
		p.preempt, p.delays, p.preempted = int(int64(p.Concrete(a[0]))), true, true
		return nil
	})
	v("Tier", func(p *Path, a []Value) Value { return uint64(p.eng.tier) })
	v("Deep", func(p *Path, a []Value) Value { p.maxSteps *= 20; return nil })
	v("Often", func(p *Path, a []Value) Value { return uint64(1) })
	v("RaceCheck", func(p *Path, a []Value) Value { p.races = newRaceRec(p); return nil })
	v("FieldMode", func(p *Path, a []Value) Value {
		k := int(p.Concrete(a[0]))
		if k >= len(fcurves) {
			p.unsupported("no such curve")
		}
		c := fcurves[k]
		for c.p>>uint(c.bits) != 0 {
			c.bits++
		}
		p.fc = &c
		return nil
	})
	fe := func(p *Path, t *fv) Value { return p.newOpq(p.eng.fieldT, t) }
	v("FieldI", func(p *Path, a []Value) Value { return fe(p, p.fcon(p.fc.i)) })
	v("FieldD", func(p *Path, a []Value) Value { return fe(p, p.fcon(p.fc.d)) })
	v("FieldS", func(p *Path, a []Value) Value { return fe(p, p.fcon(p.fc.s)) })
	v("FieldP", func(p *Path, a []Value) Value { return p.newBytes(p.fbytes(p.pool.Const(9, p.fc.p))) })
	v("CurvePoint", func(p *Path, a []Value) Value { return p.newElementOf(p.curvePoint()) })
	v("Coordinates", func(p *Path, a []Value) Value {
		s, ok := a[0].(*Struct)
		if !ok {
			p.unsupported("element %T", a[0])
		}
		for _, f := range s.f {
			if o, ok := f.(*Opaque); ok {
				q := p.fpt(o)
				return Tuple{fe(p, q.x), fe(p, q.y), fe(p, q.z), fe(p, q.t)}
			}
		}
		p.unsupported("element layout")
		return nil
	})
	v("Point", func(p *Path, a []Value) Value {
		s, ok := a[0].(*Struct)
		if !ok {
			p.unsupported("element %T", a[0])
		}
		for _, f := range s.f {
			if o, ok := f.(*Opaque); ok {
				return p.newOpq(p.eng.pointT, o.v)
			}
		}
		p.unsupported("element layout")
		return nil
	})
	v("ElementOf", func(p *Path, a []Value) Value { return p.newElementOf(p.opq(a[0]).v) })
	v("FieldBytes", func(p *Path, a []Value) Value {
		nm := p.inputName(a[0])
		b := make([]Value, 32)
		for i := range b {
			b[i] = p.pool.Var(fmt.Sprintf("in:%s:%d", nm, i), 8)
		}
		return p.newBytes(b)
	})
	for _, n := range []string{"Set", "Add", "Subtract", "Negate", "MultByCofactor", "Equal", "Bytes", "SetBytes", "ScalarBaseMult", "ScalarMult", "VarTimeDoubleScalarBaseMult", "VarTimeMultiScalarMult", "MultiScalarMult", "NewIdentityPoint", "NewGeneratorPoint"} {
		n := n
		name := "(*" + edPkg + ".Point)." + n
		if strings.HasPrefix(n, "New") {
			name = edPkg + "." + n
		}
		group := table[name]
		if group == nil {
			panic(name)
		}
		def(name, func(p *Path, a []Value) Value {
			if p.fc != nil {
				return p.fieldPoint(n, a)
			}
			return group(p, a)
		})
	}
	v("Pause", func(p *Path, a []Value) Value { p.preemptPoint(); return nil })
	v("Settle", func(p *Path, a []Value) Value { p.yieldAll(); return nil })
	v("Init", nop)
	v("Done", nop)
	v("Reaches", func(p *Path, a []Value) Value { return p.reaches(a[0], p.sc(a[1])) })

	// JSON builders
	jd := func(p *Path, n *JNode) Value { return p.docBytes(n) }
	v("JNum", func(p *Path, a []Value) Value { return jd(p, &JNode{kind: jNum, num: a[0]}) })
	v("JStr", func(p *Path, a []Value) Value { return jd(p, &JNode{kind: jStr, str: a[0]}) })
	v("JB64", func(p *Path, a []Value) Value {
		s := p.b64encStd(p.sliceBytes(a[0]))
		return jd(p, &JNode{kind: jStr, str: s})
	})
	v("JNull", func(p *Path, a []Value) Value { return jd(p, &JNode{kind: jNull}) })
	v("JBool", func(p *Path, a []Value) Value { return jd(p, &JNode{kind: jBool, b: p.mustBool(a[0])}) })
	v("JArr", func(p *Path, a []Value) Value {
		n := &JNode{kind: jArr}
		for _, x := range p.ifaceArgs(a[0]) {
			n.elems = append(n.elems, p.parseDoc(x))
		}
		return jd(p, n)
	})
	v("JObj", func(p *Path, a []Value) Value {
		n := &JNode{kind: jObj}
		ks, vs := p.ifaceArgs(a[0]), p.ifaceArgs(a[1])
		for i := range ks {
			n.keys = append(n.keys, ks[i])
			n.elems = append(n.elems, p.parseDoc(vs[i]))
		}
		return jd(p, n)
	})
	v("JKeyID", func(p *Path, a []Value) Value {
		return table["strconv.FormatUint"](p, []Value{fromTerm(p.pool.Zext(p.term(a[0], 16), 64)), uint64(10)})
	})
}

// newElement allocates a ristretto element with the given payload.
func (p *Path) newElement(pv *PointV) Value { return p.newElementOf(pv) }

func (p *Path) newElementOf(pv any) Value {
	s := p.zero(p.eng.elemT).(*Struct)
	for _, f := range s.f {
		if o, ok := f.(*Opaque); ok {
			o.v = pv
			return s
		}
	}
	p.unsupported("element layout")
	return nil
}

// reaches walks the heap from v looking for the scalar f or its encoding.
func (p *Path) reaches(v Value, f *FF) bool {
	seen := map[any]bool{}
	enc := map[Value]bool{}
	for _, e := range p.encs {
		if e.kind == "scalar" && p.identFF(e.l, f) {
			enc[e.b[0]] = true
		}
	}
	var where []string
	var walk func(v Value, path string) bool
	walk = func(v Value, path string) bool {
		switch x := v.(type) {
		case nil, bool, uint64, string, float64, *Term:
			if t, ok := v.(*Term); ok && enc[t] {
				where = append(where, path)
				return true
			}
			return false
		case *SymStr:
			for _, b := range x.b {
				if walk(b, path) {
					return true
				}
			}
			return false
		case Slice:
			if x.a == nil {
				return false
			}
			for i := 0; i < x.len; i++ {
				if walk(x.a.e[x.off+i], fmt.Sprintf("%s[%d]", path, i)) {
					return true
				}
			}
			return false
		case Tuple:
			for _, e := range x {
				if walk(e, path) {
					return true
				}
			}
			return false
		case FieldPtr:
			return walk(x.s, path)
		case ElemPtr:
			return walk(x.a, path)
		case *Iface:
			if x == nil {
				return false
			}
			return walk(x.v, path)
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *Struct:
			for i, e := range x.f {
				if walk(e, path+"."+x.typ.Field(i).Name()) {
					return true
				}
			}
		case *Array:
			for i, e := range x.e {
				if walk(e, fmt.Sprintf("%s[%d]", path, i)) {
					return true
				}
			}
		case *Opaque:
			if s, ok := x.v.(*FF); ok {
				if p.identFF(s, f) {
					where = append(where, path)
					return true
				}
			}
			if b, ok := x.v.([]Value); ok {
				for _, e := range b {
					if walk(e, path) {
						return true
					}
				}
			}
		case *Cell:
			return walk(x.v, path)
		case *Map:
			for _, e := range x.ent {
				if !e.dead && (walk(e.k, path) || walk(e.v, path+fmt.Sprintf("[%v]", e.k))) {
					return true
				}
			}
		case *Chan:
			for _, e := range x.buf {
				if walk(e, path) {
					return true
				}
			}
		}
		return false
	}
	r := walk(v, "root")
	if r {
		p.logf("secret found at %v", where)
	}
	return r
}

func (g *GoPanic) text(p *Path) string {
	ifc, ok := g.v.(*Iface)
	if !ok || ifc == nil {
		return "nil"
	}
	if s, ok := ifc.v.(string); ok {
		return s
	}
	if h, ok := ifc.v.(*HostErr); ok {
		return p.goString(h.Text(p))
	}
	return fmt.Sprintf("panic(%v)", ifc.t)
}

var _ = types.Typ
var _ = big.NewInt
