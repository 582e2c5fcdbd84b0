package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
)

// The scalar field Z_q of edwards25519, symbolically.
//
// A scalar is a node of a DAG over field variables.  Every node carries its
// value at one fixed pseudo-random point (fp); two nodes that differ at that
// point are different functions.  Nodes that agree there are expanded to a
// canonical multivariate fraction, and equality is decided exactly on that.

var ffQ, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

type VarKind uint8

const (
	VInput VarKind = iota // chosen by the harness or an adversary
	VRand                 // fresh randomness of an honest party
	VHash                 // output of the idealised hash
	VBV                   // integer value of a bit-vector term
)

type FVar struct {
	idx  int
	name string
	kind VarKind
	time int
	bv   *Term // VBV
	pt   *big.Int
	sub  *FF // solved: variable equals sub
	tags map[string]bool
}

type fop uint8

const (
	fConst fop = iota
	fVar
	fAdd
	fSub
	fMul
	fInv
)

type FF struct {
	op   fop
	a, b *FF
	v    *FVar
	k    *big.Int
	id   int

	ver    int
	fp     *big.Int
	rver   int
	rat    *Rat
	rbig   bool
	canonV int
}

// Algebra is the per-path theory state.
type Algebra struct {
	vars   []*FVar
	ver    int
	nid    int
	rng    *rand.Rand
	zero   *FF
	one    *FF
	nonz   []*Poly // polynomials known to be non-zero on this path
	clock  int
	maxT   int // expansion limit
	byTerm map[*Term]*FVar
	eqs    map[*Term]*Term // bit-vector terms known to be equal
}

func NewAlgebra() *Algebra {
	al := &Algebra{rng: rand.New(rand.NewSource(12345)), ver: 1, maxT: 60000, byTerm: map[*Term]*FVar{}, eqs: map[*Term]*Term{}}
	al.zero = al.Const(big.NewInt(0))
	al.one = al.Const(big.NewInt(1))
	return al
}

func (al *Algebra) node(op fop, a, b *FF) *FF {
	al.nid++
	return &FF{op: op, a: a, b: b, id: al.nid}
}

func (al *Algebra) Const(k *big.Int) *FF {
	n := al.node(fConst, nil, nil)
	n.k = new(big.Int).Mod(k, ffQ)
	return n
}

func (al *Algebra) NewVar(name string, kind VarKind) *FVar {
	al.clock++
	v := &FVar{idx: len(al.vars), name: name, kind: kind, time: al.clock}
	b := make([]byte, 40)
	al.rng.Read(b)
	v.pt = new(big.Int).Mod(new(big.Int).SetBytes(b), ffQ)
	al.vars = append(al.vars, v)
	return v
}

func (al *Algebra) VarNode(v *FVar) *FF {
	n := al.node(fVar, nil, nil)
	n.v = v
	return n
}

func (al *Algebra) find(t *Term) *Term {
	for {
		for t.op == OZext {
			t = t.a
		}
		u, ok := al.eqs[t]
		if !ok {
			return t
		}
		t = u
	}
}

// learnEq carries equations between bit-vectors over to the field.
func (al *Algebra) learnEq(t *Term) {
	if t.op == OAnd {
		al.learnEq(t.a)
		al.learnEq(t.b)
		return
	}
	if t.op != OEq || t.a.w == 0 {
		return
	}
	a, b := al.find(t.a), al.find(t.b)
	if a == b {
		return
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() || b.isConst() && b.k.BitLen() > a.w {
		return
	}
	va, vb := al.byTerm[a], al.byTerm[b]
	if va == nil && vb != nil && !b.isConst() {
		a, b, va = b, a, vb
	}
	al.eqs[a] = b
	if va != nil {
		al.solve(va, al.OfBV(b))
	}
}

func (al *Algebra) OfBV(t *Term) *FF {
	t = al.find(t)
	if t.isConst() {
		return al.Const(t.k)
	}
	v := al.byTerm[t]
	if v == nil {
		v = al.NewVar(fmt.Sprintf("bv%d", t.id), VBV)
		v.bv = t
		al.byTerm[t] = v
	}
	return al.VarNode(v)
}

func (al *Algebra) isK(a *FF, k int64) bool {
	return a.op == fConst && a.k.IsInt64() && a.k.Int64() == k
}

func (al *Algebra) Add(a, b *FF) *FF {
	if al.isK(a, 0) {
		return b
	}
	if al.isK(b, 0) {
		return a
	}
	if a.op == fConst && b.op == fConst {
		return al.Const(new(big.Int).Add(a.k, b.k))
	}
	return al.node(fAdd, a, b)
}

func (al *Algebra) Sub(a, b *FF) *FF {
	if al.isK(b, 0) {
		return a
	}
	if a == b {
		return al.zero
	}
	if a.op == fConst && b.op == fConst {
		return al.Const(new(big.Int).Sub(a.k, b.k))
	}
	return al.node(fSub, a, b)
}

func (al *Algebra) Neg(a *FF) *FF { return al.Sub(al.zero, a) }

func (al *Algebra) Mul(a, b *FF) *FF {
	if al.isK(a, 0) || al.isK(b, 0) {
		return al.zero
	}
	if al.isK(a, 1) {
		return b
	}
	if al.isK(b, 1) {
		return a
	}
	if a.op == fConst && b.op == fConst {
		return al.Const(new(big.Int).Mul(a.k, b.k))
	}
	return al.node(fMul, a, b)
}

// Inv assumes a is known to be non-zero.
func (al *Algebra) Inv(a *FF) *FF {
	if a.op == fConst {
		return al.Const(new(big.Int).ModInverse(a.k, ffQ))
	}
	return al.node(fInv, a, nil)
}

// FP is the node's value at the fixed random point under current substitutions.
func (al *Algebra) FP(f *FF) *big.Int {
	if f.op == fConst {
		return f.k
	}
	if f.ver == al.ver {
		return f.fp
	}
	r := new(big.Int)
	switch f.op {
	case fVar:
		if f.v.sub != nil {
			r = al.FP(f.v.sub)
		} else {
			r = f.v.pt
		}
	case fAdd:
		r.Add(al.FP(f.a), al.FP(f.b))
		r.Mod(r, ffQ)
	case fSub:
		r.Sub(al.FP(f.a), al.FP(f.b))
		r.Mod(r, ffQ)
	case fMul:
		r.Mul(al.FP(f.a), al.FP(f.b))
		r.Mod(r, ffQ)
	case fInv:
		x := al.FP(f.a)
		if x.Sign() != 0 {
			r.ModInverse(x, ffQ)
		}
	}
	f.fp, f.ver = r, al.ver
	return r
}

// Eval under a full assignment of the unsolved variables.
func (al *Algebra) Eval(f *FF, asg map[*FVar]*big.Int, memo map[*FF]*big.Int) *big.Int {
	if f.op == fConst {
		return f.k
	}
	if r, ok := memo[f]; ok {
		return r
	}
	r := new(big.Int)
	switch f.op {
	case fVar:
		if f.v.sub != nil {
			r = al.Eval(f.v.sub, asg, memo)
		} else if x := asg[f.v]; x != nil {
			r = x
		}
	case fAdd:
		r.Add(al.Eval(f.a, asg, memo), al.Eval(f.b, asg, memo))
	case fSub:
		r.Sub(al.Eval(f.a, asg, memo), al.Eval(f.b, asg, memo))
	case fMul:
		r.Mul(al.Eval(f.a, asg, memo), al.Eval(f.b, asg, memo))
	case fInv:
		x := al.Eval(f.a, asg, memo)
		if x.Sign() != 0 {
			r.ModInverse(x, ffQ)
		}
	}
	r = new(big.Int).Mod(r, ffQ)
	memo[f] = r
	return r
}

// ---- polynomials ----

// a monomial is a string of 2-byte big-endian variable indices, sorted
type Poly struct {
	t   map[string]*big.Int
	key string
}

func polyConst(k *big.Int) *Poly {
	p := &Poly{t: map[string]*big.Int{}}
	if k.Sign() != 0 {
		p.t[""] = k
	}
	return p
}

func polyVar(i int) *Poly {
	return &Poly{t: map[string]*big.Int{string([]byte{byte(i >> 8), byte(i)}): big.NewInt(1)}}
}

func (p *Poly) isZero() bool { return len(p.t) == 0 }
func (p *Poly) isConst() bool {
	if len(p.t) == 0 {
		return true
	}
	_, ok := p.t[""]
	return ok && len(p.t) == 1
}
func (p *Poly) constVal() *big.Int {
	if k := p.t[""]; k != nil {
		return k
	}
	return new(big.Int)
}

func (p *Poly) add(q *Poly, sign int) *Poly {
	r := &Poly{t: make(map[string]*big.Int, len(p.t)+len(q.t))}
	for m, c := range p.t {
		r.t[m] = c
	}
	for m, c := range q.t {
		x := new(big.Int)
		if o := r.t[m]; o != nil {
			x.Set(o)
		}
		if sign > 0 {
			x.Add(x, c)
		} else {
			x.Sub(x, c)
		}
		x.Mod(x, ffQ)
		if x.Sign() == 0 {
			delete(r.t, m)
		} else {
			r.t[m] = x
		}
	}
	return r
}

func monMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i:i+2] <= b[j:j+2] {
			out = append(out, a[i], a[i+1])
			i += 2
		} else {
			out = append(out, b[j], b[j+1])
			j += 2
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return string(out)
}

func (p *Poly) mul(q *Poly) *Poly {
	if len(p.t) == 1 && p.isConst() {
		return q.scale(p.constVal())
	}
	if len(q.t) == 1 && q.isConst() {
		return p.scale(q.constVal())
	}
	r := &Poly{t: make(map[string]*big.Int, len(p.t)*len(q.t))}
	for m, c := range p.t {
		for n, d := range q.t {
			k := monMul(m, n)
			x := new(big.Int).Mul(c, d)
			if o := r.t[k]; o != nil {
				x.Add(x, o)
			}
			r.t[k] = x
		}
	}
	for k, x := range r.t {
		x.Mod(x, ffQ)
		if x.Sign() == 0 {
			delete(r.t, k)
		}
	}
	return r
}

func (p *Poly) scale(k *big.Int) *Poly {
	r := &Poly{t: make(map[string]*big.Int, len(p.t))}
	if k.Sign() == 0 {
		return r
	}
	for m, c := range p.t {
		x := new(big.Int).Mul(c, k)
		r.t[m] = x.Mod(x, ffQ)
	}
	return r
}

func (p *Poly) mons() []string {
	ms := make([]string, 0, len(p.t))
	for m := range p.t {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool {
		if len(ms[i]) != len(ms[j]) {
			return len(ms[i]) > len(ms[j])
		}
		return ms[i] < ms[j]
	})
	return ms
}

// monic returns p divided by its leading coefficient, and that coefficient.
func (p *Poly) monic() (*Poly, *big.Int) {
	if p.isZero() {
		return p, big.NewInt(1)
	}
	lc := p.t[p.mons()[0]]
	if lc.Cmp(big.NewInt(1)) == 0 {
		return p, lc
	}
	return p.scale(new(big.Int).ModInverse(lc, ffQ)), lc
}

func (p *Poly) Key() string {
	if p.key == "" {
		var sb strings.Builder
		for _, m := range p.mons() {
			sb.WriteString(m)
			sb.WriteByte('|')
			sb.WriteString(p.t[m].Text(62))
			sb.WriteByte(';')
		}
		p.key = sb.String()
	}
	return p.key
}

func monVars(m string) []int {
	var r []int
	for i := 0; i < len(m); i += 2 {
		r = append(r, int(m[i])<<8|int(m[i+1]))
	}
	return r
}

func (p *Poly) varSet() map[int]int { // var -> max degree
	r := map[int]int{}
	for m := range p.t {
		c := map[int]int{}
		for _, v := range monVars(m) {
			c[v]++
		}
		for v, n := range c {
			if n > r[v] {
				r[v] = n
			}
		}
	}
	return r
}

func monWithout(m string, v int) (string, int) {
	out := []byte{}
	n := 0
	for i := 0; i < len(m); i += 2 {
		if int(m[i])<<8|int(m[i+1]) == v {
			n++
		} else {
			out = append(out, m[i], m[i+1])
		}
	}
	return string(out), n
}

// coeffs of p as a polynomial in v
func (p *Poly) coeffs(v int) []*Poly {
	var cs []*Poly
	for m, c := range p.t {
		r, n := monWithout(m, v)
		for len(cs) <= n {
			cs = append(cs, &Poly{t: map[string]*big.Int{}})
		}
		cs[n].t[r] = c
	}
	return cs
}

// divDiff divides p by (x_a - x_b) (b<0: by x_a) if exact.
func (p *Poly) divDiff(a, b int) *Poly {
	cs := p.coeffs(a)
	if len(cs) <= 1 {
		return nil
	}
	if b < 0 {
		if !cs[0].isZero() {
			return nil
		}
	}
	q := make([]*Poly, len(cs)-1)
	carry := polyConst(new(big.Int))
	var xb *Poly
	if b >= 0 {
		xb = polyVar(b)
	}
	for i := len(cs) - 1; i >= 1; i-- {
		c := cs[i]
		if b >= 0 {
			c = c.add(carry.mul(xb), 1)
		}
		q[i-1] = c
		carry = c
	}
	if b >= 0 {
		rem := cs[0].add(carry.mul(xb), 1)
		if !rem.isZero() {
			return nil
		}
	}
	r := polyConst(new(big.Int))
	pw := polyConst(big.NewInt(1))
	xa := polyVar(a)
	for i := range q {
		r = r.add(q[i].mul(pw), 1)
		pw = pw.mul(xa)
	}
	return r
}

// Rat is num / prod(den)
type Rat struct {
	num *Poly
	den []*Poly // monic, sorted by key
}

type tooBig struct{}

func (al *Algebra) check(p *Poly) *Poly {
	if len(p.t) > al.maxT {
		panic(tooBig{})
	}
	return p
}

func (al *Algebra) polyMul(p, q *Poly) *Poly {
	if len(p.t)*len(q.t) > al.maxT*20 {
		panic(tooBig{})
	}
	return al.check(p.mul(q))
}

func mergeDen(a, b []*Poly) []*Poly {
	r := append(append([]*Poly{}, a...), b...)
	sort.Slice(r, func(i, j int) bool { return r[i].Key() < r[j].Key() })
	return r
}

// missing factors of l relative to d: multiset l - d
func denMinus(l, d []*Poly) []*Poly {
	cnt := map[string]int{}
	for _, p := range d {
		cnt[p.Key()]++
	}
	var r []*Poly
	for _, p := range l {
		if cnt[p.Key()] > 0 {
			cnt[p.Key()]--
		} else {
			r = append(r, p)
		}
	}
	return r
}

func (al *Algebra) ratAdd(x, y *Rat, sign int) *Rat {
	if len(x.den) == 0 && len(y.den) == 0 {
		return &Rat{num: al.check(x.num.add(y.num, sign))}
	}
	extraX := denMinus(y.den, x.den) // factors x must be multiplied with
	extraY := denMinus(x.den, y.den)
	nx, ny := x.num, y.num
	for _, p := range extraX {
		nx = al.polyMul(nx, p)
	}
	for _, p := range extraY {
		ny = al.polyMul(ny, p)
	}
	n := al.check(nx.add(ny, sign))
	if n.isZero() {
		return &Rat{num: n}
	}
	return &Rat{num: n, den: mergeDen(x.den, extraX)}
}

func (al *Algebra) ratMul(x, y *Rat) *Rat {
	n := al.polyMul(x.num, y.num)
	if n.isZero() {
		return &Rat{num: n}
	}
	return &Rat{num: n, den: mergeDen(x.den, y.den)}
}

// factorBV splits off factors x_a - x_b and x_a over bit-vector variables.
func (al *Algebra) factorBV(p *Poly) (rest *Poly, fs []*Poly, pairs [][2]int) {
	rest = p
	vs := []int{}
	for v := range p.varSet() {
		if al.vars[v].kind == VBV {
			vs = append(vs, v)
		}
	}
	sort.Ints(vs)
	for i, a := range vs {
		for {
			q := rest.divDiff(a, -1)
			if q == nil {
				break
			}
			rest = q
			fs = append(fs, polyVar(a))
			pairs = append(pairs, [2]int{a, -1})
		}
		for _, b := range vs[i+1:] {
			for {
				q := rest.divDiff(a, b)
				if q == nil {
					break
				}
				rest = q
				fs = append(fs, polyVar(a).add(polyVar(b), -1))
				pairs = append(pairs, [2]int{a, b})
			}
		}
	}
	return
}

func (al *Algebra) ratInv(x *Rat) *Rat {
	n := polyConst(big.NewInt(1))
	for _, p := range x.den {
		n = al.polyMul(n, p)
	}
	rest, fs, _ := al.factorBV(x.num)
	var den []*Poly
	addf := func(p *Poly) {
		m, lc := p.monic()
		n = n.scale(new(big.Int).ModInverse(lc, ffQ))
		if !m.isConst() {
			den = append(den, m)
		}
	}
	for _, f := range fs {
		addf(f)
	}
	addf(rest)
	return &Rat{num: n, den: mergeDen(den, nil)}
}

// Rat expands f under current substitutions. ok=false if too large.
func (al *Algebra) Rat(f *FF) (r *Rat, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(tooBig); is {
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	return al.ratRec(f), true
}

func (al *Algebra) ratRec(f *FF) *Rat {
	if f.rver == al.ver {
		return f.rat
	}
	var r *Rat
	switch f.op {
	case fConst:
		r = &Rat{num: polyConst(f.k)}
	case fVar:
		if f.v.sub != nil {
			r = al.ratRec(f.v.sub)
		} else {
			r = &Rat{num: polyVar(f.v.idx)}
		}
	case fAdd:
		r = al.ratAdd(al.ratRec(f.a), al.ratRec(f.b), 1)
	case fSub:
		r = al.ratAdd(al.ratRec(f.a), al.ratRec(f.b), -1)
	case fMul:
		r = al.ratMul(al.ratRec(f.a), al.ratRec(f.b))
	case fInv:
		x := al.ratRec(f.a)
		if x.num.isZero() {
			r = x
		} else {
			r = al.ratInv(x)
		}
	}
	f.rat, f.rver = r, al.ver
	return r
}

func (al *Algebra) polyToFF(p *Poly) *FF {
	r := al.zero
	for _, m := range p.mons() {
		x := al.Const(p.t[m])
		for _, v := range monVars(m) {
			x = al.Mul(x, al.VarNode(al.vars[v]))
		}
		r = al.Add(r, x)
	}
	return r
}

func (al *Algebra) String(f *FF) string {
	r, ok := al.Rat(f)
	if !ok {
		return "<large>"
	}
	s := al.polyStr(r.num)
	for _, d := range r.den {
		s += " / (" + al.polyStr(d) + ")"
	}
	return s
}

func (al *Algebra) polyStr(p *Poly) string {
	if p.isZero() {
		return "0"
	}
	var parts []string
	for i, m := range p.mons() {
		if i > 12 {
			parts = append(parts, fmt.Sprintf("... (%d terms)", len(p.t)))
			break
		}
		c := p.t[m]
		s := c.String()
		if half := new(big.Int).Rsh(ffQ, 1); c.Cmp(half) > 0 {
			s = "-" + new(big.Int).Sub(ffQ, c).String()
		}
		if len(s) > 24 {
			s = s[:10] + ".."
		}
		for _, v := range monVars(m) {
			s += "*" + al.vars[v].name
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " + ")
}

// SMTIdentity renders "f is not identically zero" over Int modulo q, from the
// un-normalised DAG (numerator/denominator pairs, no simplification).
func (al *Algebra) SMTIdentity(f *FF, maxNodes int) (string, bool) {
	var sb strings.Builder
	type nd struct{ n, d string } // d=="" means 1
	memo := map[*FF]nd{}
	declared := map[*FVar]bool{}
	cnt := 0
	def := func(e string) string {
		cnt++
		nm := fmt.Sprintf("n%d", cnt)
		fmt.Fprintf(&sb, "(define-fun %s () Int %s)\n", nm, e)
		return nm
	}
	mul := func(a, b string) string {
		if a == "" {
			return b
		}
		if b == "" {
			return a
		}
		return def("(* " + a + " " + b + ")")
	}
	over := false
	var rec func(f *FF) nd
	rec = func(f *FF) nd {
		if r, ok := memo[f]; ok {
			return r
		}
		if cnt > maxNodes {
			over = true
			return nd{"0", ""}
		}
		var r nd
		switch f.op {
		case fConst:
			r = nd{f.k.String(), ""}
		case fVar:
			if f.v.sub != nil {
				r = rec(f.v.sub)
			} else {
				nm := fmt.Sprintf("v%d", f.v.idx)
				if !declared[f.v] {
					declared[f.v] = true
					fmt.Fprintf(&sb, "(declare-const %s Int)\n", nm)
				}
				r = nd{nm, ""}
			}
		case fAdd, fSub:
			a, b := rec(f.a), rec(f.b)
			op := "+"
			if f.op == fSub {
				op = "-"
			}
			if a.d == b.d {
				r = nd{def("(" + op + " " + a.n + " " + b.n + ")"), a.d}
			} else {
				x, y := a.n, b.n
				if b.d != "" {
					x = mul(x, b.d)
				}
				if a.d != "" {
					y = mul(y, a.d)
				}
				r = nd{def("(" + op + " " + x + " " + y + ")"), mul(a.d, b.d)}
			}
		case fMul:
			a, b := rec(f.a), rec(f.b)
			r = nd{def("(* " + a.n + " " + b.n + ")"), mul(a.d, b.d)}
		case fInv:
			a := rec(f.a)
			n := a.d
			if n == "" {
				n = "1"
			}
			r = nd{n, a.n}
		}
		memo[f] = r
		return r
	}
	r := rec(f)
	if over {
		return "", false
	}
	fmt.Fprintf(&sb, "(assert (not (= (mod %s %s) 0)))\n", r.n, ffQ.String())
	return sb.String(), true
}

func (al *Algebra) solve(v *FVar, e *FF) {
	v.sub = e
	al.ver++
}

// varsOf returns the unsolved variables f depends on (syntactically, after expansion).
func (al *Algebra) varsOf(f *FF) ([]*FVar, bool) {
	r, ok := al.Rat(f)
	if !ok {
		return nil, false
	}
	set := map[int]bool{}
	for v := range r.num.varSet() {
		set[v] = true
	}
	for _, d := range r.den {
		for v := range d.varSet() {
			set[v] = true
		}
	}
	var out []*FVar
	for v := range set {
		out = append(out, al.vars[v])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].idx < out[j].idx })
	return out, true
}
