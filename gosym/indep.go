package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// independent decides whether some non-trivial linear combination (with
// constant coefficients) of the given scalars or discrete logarithms does not
// depend on any fresh randomness. If none exists, the values are jointly
// uniform for everybody who does not know the randomness.
func (p *Path) independent(label string, xs []Value) {
	al := p.al
	p.asserts[label]++
	p.assertsN++
	n := len(xs)
	cols := map[string]int{}
	type row struct {
		c map[int]*big.Int // column -> value
		t []*big.Int       // combination of inputs
	}
	var rows []*row
	var fs []*FF
	for i, x := range xs {
		var f *FF
		if ifc, ok := x.(*Iface); ok {
			x = ifc.v
		}
		if pv, ok := p.tryPoint(x); ok {
			f = pv.l
		} else {
			f = p.sc(x)
		}
		fs = append(fs, f)
		r, ok := al.Rat(f)
		if !ok || len(r.den) > 0 {
			p.unsupported("independence of a non-polynomial value")
		}
		w := &row{c: map[int]*big.Int{}, t: make([]*big.Int, n)}
		for k := range w.t {
			w.t[k] = new(big.Int)
		}
		w.t[i].SetInt64(1)
		for m, c := range r.num.t {
			rnd := false
			for _, v := range monVars(m) {
				switch al.vars[v].kind {
				case VRand:
					rnd = true
				case VBV:
					if len(p.randBytes([]Value{al.vars[v].bv})) == 0 {
						p.unsupported("independence with symbolic coefficients")
					}
					rnd = true
				}
			}
			if !rnd {
				continue
			}
			k, ok := cols[m]
			if !ok {
				k = len(cols)
				cols[m] = k
			}
			w.c[k] = new(big.Int).Set(c)
		}
		rows = append(rows, w)
	}
	p.weakRandom(label, fs)
	var basis []*row
	piv := []int{}
	for _, w := range rows {
		for bi, b := range basis {
			c := w.c[piv[bi]]
			if c == nil || c.Sign() == 0 {
				continue
			}
			f := new(big.Int).Set(c) // basis rows have pivot 1
			for k, v := range b.c {
				x := w.c[k]
				if x == nil {
					x = new(big.Int)
				}
				x = new(big.Int).Sub(x, new(big.Int).Mul(f, v))
				x.Mod(x, ffQ)
				if x.Sign() == 0 {
					delete(w.c, k)
				} else {
					w.c[k] = x
				}
			}
			for k := range w.t {
				w.t[k].Sub(w.t[k], new(big.Int).Mul(f, b.t[k])).Mod(w.t[k], ffQ)
			}
		}
		best := -1
		for k, v := range w.c {
			if v.Sign() != 0 && (best < 0 || k < best) {
				best = k
			}
		}
		if best < 0 {
			// relation found
			rel := al.zero
			for i := range fs {
				rel = al.Add(rel, al.Mul(al.Const(w.t[i]), fs[i]))
			}
			old := p.rel
			p.rel = &relData{key: fmt.Sprintf("%s#%d", label, p.asserts[label]), c: w.t, known: rel}
			p.logf("relation %v, value %s", w.t, al.String(rel))
			p.violation(label, "a linear combination of the values does not depend on any fresh randomness")
			p.rel = old
			panic(&pathAbort{abViolationEnd, label})
		}
		inv := new(big.Int).ModInverse(w.c[best], ffQ)
		for k, v := range w.c {
			w.c[k] = new(big.Int).Mod(new(big.Int).Mul(v, inv), ffQ)
		}
		for k := range w.t {
			w.t[k] = new(big.Int).Mod(new(big.Int).Mul(w.t[k], inv), ffQ)
		}
		basis = append(basis, w)
		piv = append(piv, best)
	}
}

// randBytes lists the bytes read from the random source that the given bytes
// are made of.
func (p *Path) randBytes(in []Value) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if p.srcBytes[t] {
			out[t] = true
			return
		}
		if t.op == OExtract && t.a.op == OVar && strings.HasPrefix(t.a.name, "rand#") {
			if t.w == 8 {
				out[t] = true
				return
			}
			t = t.a
		}
		if t.op == OVar && strings.HasPrefix(t.name, "rand#") {
			out[t] = true
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, b := range in {
		if t, ok := b.(*Term); ok {
			walk(t)
		}
	}
	return out
}

// weakRandom reports a random scalar that is made of too few random bytes of
// its own: 40 are needed for its distribution to be close to uniform.
func (p *Path) weakRandom(label string, fs []*FF) {
	al := p.al
	used := map[*Term]bool{}
	done := map[int]bool{}
	for i, f := range fs {
		r, ok := al.Rat(f)
		if !ok {
			continue
		}
		vs := r.num.varSet()
		var order []int
		for v := range vs {
			order = append(order, v)
		}
		sort.Ints(order)
		for _, v := range order {
			if done[v] {
				continue
			}
			done[v] = true
			fv := al.vars[v]
			var in []Value
			need := 40
			switch {
			case fv.kind == VBV:
				in = []Value{fv.bv}
				need = 31
			case fv.kind == VRand:
				for _, u := range p.unis {
					if u.f != nil && u.f.op == fVar && u.f.v == fv {
						in = u.in
					}
				}
			}
			own := p.randBytes(in)
			if len(own) == 0 {
				continue
			}
			n := 0
			for t := range own {
				if !used[t] {
					n += t.w / 8
					used[t] = true
				}
			}
			if n >= need {
				continue
			}
			c := make([]*big.Int, len(fs))
			for k := range c {
				c[k] = new(big.Int)
			}
			c[i].SetInt64(1)
			old := p.rel
			p.rel = &relData{key: fmt.Sprintf("%s#%d", label, p.asserts[label]), c: c, known: fs[i]}
			p.violation(label, fmt.Sprintf("value %d depends on a random scalar that is made of only %d random bytes not used elsewhere", i+1, n))
			p.rel = old
			panic(&pathAbort{abViolationEnd, label})
		}
	}
}

type relData struct {
	key   string
	c     []*big.Int
	known *FF
}

func (r *relData) data(ev func(*FF) *big.Int) []string {
	out := []string{r.key}
	for _, c := range r.c {
		out = append(out, hex.EncodeToString(leBytes(c, 32)))
	}
	return append(out, hex.EncodeToString(leBytes(ev(r.known), 32)))
}

func (p *Path) tryPoint(v Value) (pv *PointV, ok bool) {
	s, is := v.(*Struct)
	if !is {
		return nil, false
	}
	for _, f := range s.f {
		if o, is := f.(*Opaque); is {
			if x, is := o.v.(*PointV); is {
				return x, true
			}
		}
	}
	return nil, false
}
