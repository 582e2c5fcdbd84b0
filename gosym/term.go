package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Terms: hash-consed SMT terms of sort Bool (w==0) or BitVec(w).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
	OUlt
	OUle
	OSlt
	OSle
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

type Term struct {
	op      Op
	w       int // 0 = Bool
	a, b, c *Term
	hi, lo  int
	k       *big.Int // OConst (Bool: 0/1)
	name    string
	id      int
}

type termKey struct {
	op      Op
	w       int
	a, b, c int
	hi, lo  int
	s       string
}

// TermPool hash-conses terms; one per worker.
type TermPool struct {
	m    map[termKey]*Term
	n    int
	vars []*Term
	T, F *Term
}

func NewPool() *TermPool {
	p := &TermPool{m: map[termKey]*Term{}}
	p.T = p.mkConst(0, big.NewInt(1))
	p.F = p.mkConst(0, big.NewInt(0))
	return p
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (p *TermPool) mk(op Op, w int, a, b, c *Term, hi, lo int, k *big.Int, name string) *Term {
	s := name
	if k != nil {
		s = k.Text(62)
	}
	key := termKey{op, w, tid(a), tid(b), tid(c), hi, lo, s}
	if t, ok := p.m[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, hi: hi, lo: lo, k: k, name: name, id: p.n}
	p.n++
	p.m[key] = t
	if op == OVar {
		p.vars = append(p.vars, t)
	}
	return t
}

func (p *TermPool) mkConst(w int, k *big.Int) *Term {
	return p.mk(OConst, w, nil, nil, nil, 0, 0, k, "")
}

func (p *TermPool) Var(name string, w int) *Term {
	return p.mk(OVar, w, nil, nil, nil, 0, 0, nil, name)
}

func mask(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

func (p *TermPool) Const(w int, v uint64) *Term {
	return p.BigConst(w, new(big.Int).SetUint64(v))
}

func (p *TermPool) BigConst(w int, v *big.Int) *Term {
	k := new(big.Int).And(v, mask(w))
	return p.mkConst(w, k)
}

func (p *TermPool) Bool(b bool) *Term {
	if b {
		return p.T
	}
	return p.F
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k.Sign() != 0 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k.Sign() == 0 }
func (t *Term) isZero() bool  { return t.op == OConst && t.k.Sign() == 0 }

func toSigned(k *big.Int, w int) *big.Int {
	if k.Bit(w-1) == 1 {
		return new(big.Int).Sub(k, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return new(big.Int).Set(k)
}

func (p *TermPool) Not(a *Term) *Term {
	if a.isConst() {
		return p.Bool(a.isFalse())
	}
	if a.op == ONot {
		return a.a
	}
	return p.mk(ONot, 0, a, nil, nil, 0, 0, nil, "")
}

func (p *TermPool) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return p.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return p.F
	}
	return p.mk(OAnd, 0, a, b, nil, 0, 0, nil, "")
}

func (p *TermPool) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return p.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return p.T
	}
	return p.mk(OOr, 0, a, b, nil, 0, 0, nil, "")
}

func (p *TermPool) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return p.Not(c)
		}
		if a.isTrue() {
			return p.Or(c, b)
		}
		if a.isFalse() {
			return p.And(p.Not(c), b)
		}
		if b.isTrue() {
			return p.Or(p.Not(c), a)
		}
		if b.isFalse() {
			return p.And(c, a)
		}
	}
	if c.op == ONot {
		return p.Ite(c.a, b, a)
	}
	return p.mk(OIte, a.w, c, a, b, 0, 0, nil, "")
}

// iteConstLeaves reports whether t is an ite tree with constant leaves of small size
func iteConstLeaves(t *Term, n int) bool {
	if n < 0 {
		return false
	}
	if t.isConst() {
		return true
	}
	return t.op == OIte && iteConstLeaves(t.b, n-1) && iteConstLeaves(t.c, n-1)
}

func (p *TermPool) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return p.T
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.k.Cmp(b.k) == 0)
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return p.Not(b)
		}
		if b.isFalse() {
			return p.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			if iteConstLeaves(a, 4) {
				return p.Ite(a.a, p.Eq(a.b, b), p.Eq(a.c, b))
			}
		case OZext:
			iw := a.a.w
			if new(big.Int).Rsh(b.k, uint(iw)).Sign() != 0 {
				return p.F
			}
			return p.Eq(a.a, p.BigConst(iw, b.k))
		case OConcat:
			lo := p.BigConst(a.b.w, b.k)
			hi := p.BigConst(a.a.w, new(big.Int).Rsh(b.k, uint(a.b.w)))
			return p.And(p.Eq(a.a, hi), p.Eq(a.b, lo))
		case OBXor, OAdd:
		case OBNot:
			return p.Eq(a.a, p.BigConst(a.w, new(big.Int).Xor(b.k, mask(a.w))))
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return p.Eq(a.a, b.a)
	}
	if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
		return p.And(p.Eq(a.a, b.a), p.Eq(a.b, b.b))
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return p.mk(OEq, 0, a, b, nil, 0, 0, nil, "")
}

func (p *TermPool) binConst(op Op, w int, x, y *big.Int) *big.Int {
	m := mask(w)
	r := new(big.Int)
	switch op {
	case OAdd:
		r.Add(x, y)
	case OSub:
		r.Sub(x, y)
	case OMul:
		r.Mul(x, y)
	case OUDiv:
		if y.Sign() == 0 {
			return m
		}
		r.Div(x, y)
	case OURem:
		if y.Sign() == 0 {
			return new(big.Int).Set(x)
		}
		r.Mod(x, y)
	case OSDiv:
		xs, ys := toSigned(x, w), toSigned(y, w)
		if ys.Sign() == 0 {
			return nil
		}
		r.Quo(xs, ys)
	case OSRem:
		xs, ys := toSigned(x, w), toSigned(y, w)
		if ys.Sign() == 0 {
			return nil
		}
		r.Rem(xs, ys)
	case OBAnd:
		r.And(x, y)
	case OBOr:
		r.Or(x, y)
	case OBXor:
		r.Xor(x, y)
	case OShl:
		if y.Cmp(big.NewInt(int64(w))) >= 0 {
			return r
		}
		r.Lsh(x, uint(y.Uint64()))
	case OLshr:
		if y.Cmp(big.NewInt(int64(w))) >= 0 {
			return r
		}
		r.Rsh(x, uint(y.Uint64()))
	case OAshr:
		xs := toSigned(x, w)
		sh := uint(w)
		if y.Cmp(big.NewInt(int64(w))) < 0 {
			sh = uint(y.Uint64())
		}
		r.Rsh(xs, sh)
	default:
		return nil
	}
	return r.And(r, m)
}

func (p *TermPool) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width mismatch %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		if r := p.binConst(op, w, a.k, b.k); r != nil {
			return p.mkConst(w, r)
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		z := b.k.Sign() == 0
		one := b.k.Cmp(big.NewInt(1)) == 0
		ones := b.k.Cmp(mask(w)) == 0
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLshr, OAshr:
			if z {
				return a
			}
		}
		switch op {
		case OMul:
			if z {
				return b
			}
			if one {
				return a
			}
		case OBAnd:
			if z {
				return b
			}
			if ones {
				return a
			}
			// low mask
			n := b.k.BitLen()
			if new(big.Int).Add(b.k, big.NewInt(1)).Cmp(new(big.Int).Lsh(big.NewInt(1), uint(n))) == 0 {
				return p.Zext(p.Extract(a, n-1, 0), w)
			}
		case OBOr:
			if ones {
				return b
			}
		case OUDiv:
			if one {
				return a
			}
		case OShl:
			if b.k.Cmp(big.NewInt(int64(w))) >= 0 {
				return p.Const(w, 0)
			}
			n := int(b.k.Int64())
			return p.Concat(p.Extract(a, w-1-n, 0), p.Const(n, 0))
		case OLshr:
			if b.k.Cmp(big.NewInt(int64(w))) >= 0 {
				return p.Const(w, 0)
			}
			n := int(b.k.Int64())
			return p.Zext(p.Extract(a, w-1, n), w)
		case OAdd:
			if a.op == OAdd && a.b.isConst() {
				return p.Bin(OAdd, a.a, p.mkConst(w, p.binConst(OAdd, w, a.b.k, b.k)))
			}
		case OSub:
			return p.Bin(OAdd, a, p.BigConst(w, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), b.k)))
		}
	}
	if a.isZero() {
		switch op {
		case OShl, OLshr, OAshr, OUDiv, OURem:
			if op == OUDiv || op == OURem {
				break
			}
			return a
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return p.Const(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	// or of disjoint concat pieces: (zext x) | (y ++ 0)  => concat
	if op == OBOr || op == OAdd || op == OBXor {
		if r := p.disjointOr(a, b); r != nil {
			return r
		}
		if r := p.disjointOr(b, a); r != nil {
			return r
		}
	}
	if op == OBAnd || op == OBOr || op == OBXor || op == OAdd || op == OMul {
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	}
	return p.mk(op, w, a, b, nil, 0, 0, nil, "")
}

// disjointOr: a has its low n bits zero (concat(x, 0_n)), b < 2^n.
func (p *TermPool) disjointOr(a, b *Term) *Term {
	lz := p.lowZeros(a)
	if lz == 0 {
		return nil
	}
	hb := p.highBit(b)
	if hb <= lz && hb > 0 {
		return p.Concat(p.Extract(a, a.w-1, lz), p.Extract(b, lz-1, 0))
	}
	return nil
}

func (p *TermPool) lowZeros(t *Term) int {
	switch t.op {
	case OConst:
		if t.k.Sign() == 0 {
			return t.w
		}
		return int(t.k.TrailingZeroBits())
	case OConcat:
		l := p.lowZeros(t.b)
		if l == t.b.w {
			return l + p.lowZeros(t.a)
		}
		return l
	case OZext:
		l := p.lowZeros(t.a)
		if l == t.a.w {
			return t.w
		}
		return l
	}
	return 0
}

// highBit: upper bound on number of significant bits
func (p *TermPool) highBit(t *Term) int {
	switch t.op {
	case OConst:
		return t.k.BitLen()
	case OZext:
		return p.highBit(t.a)
	case OConcat:
		h := p.highBit(t.a)
		if h == 0 {
			return p.highBit(t.b)
		}
		return h + t.b.w
	}
	return t.w
}

func (p *TermPool) BNot(a *Term) *Term {
	if a.isConst() {
		return p.BigConst(a.w, new(big.Int).Xor(a.k, mask(a.w)))
	}
	if a.op == OBNot {
		return a.a
	}
	return p.mk(OBNot, a.w, a, nil, nil, 0, 0, nil, "")
}

func (p *TermPool) Neg(a *Term) *Term {
	return p.Bin(OSub, p.Const(a.w, 0), a)
}

func (p *TermPool) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	w := hi - lo + 1
	switch a.op {
	case OConst:
		return p.BigConst(w, new(big.Int).Rsh(a.k, uint(lo)))
	case OExtract:
		return p.Extract(a.a, a.lo+hi, a.lo+lo)
	case OConcat:
		bw := a.b.w
		if hi < bw {
			return p.Extract(a.b, hi, lo)
		}
		if lo >= bw {
			return p.Extract(a.a, hi-bw, lo-bw)
		}
		return p.Concat(p.Extract(a.a, hi-bw, 0), p.Extract(a.b, bw-1, lo))
	case OZext:
		iw := a.a.w
		if hi < iw {
			return p.Extract(a.a, hi, lo)
		}
		if lo >= iw {
			return p.Const(w, 0)
		}
		return p.Zext(p.Extract(a.a, iw-1, lo), w)
	case OIte:
		if iteConstLeaves(a, 4) {
			return p.Ite(a.a, p.Extract(a.b, hi, lo), p.Extract(a.c, hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		return p.Bin(a.op, p.Extract(a.a, hi, lo), p.Extract(a.b, hi, lo))
	case OBNot:
		return p.BNot(p.Extract(a.a, hi, lo))
	}
	return p.mk(OExtract, w, a, nil, nil, hi, lo, nil, "")
}

func (p *TermPool) Concat(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		k := new(big.Int).Lsh(a.k, uint(b.w))
		k.Or(k, b.k)
		return p.mkConst(a.w+b.w, k)
	}
	if a.isZero() {
		return p.Zext(b, a.w+b.w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.lo == b.hi+1 {
		return p.Extract(a.a, a.hi, b.lo)
	}
	// right-assoc merging: concat(a, concat(b1,b2)) where a,b1 adjacent
	if b.op == OConcat && a.op == OExtract && b.a.op == OExtract && a.a == b.a.a && a.lo == b.a.hi+1 {
		return p.Concat(p.Extract(a.a, a.hi, b.a.lo), b.b)
	}
	if a.op == OConcat {
		return p.Concat(a.a, p.Concat(a.b, b))
	}
	return p.mk(OConcat, a.w+b.w, a, b, nil, 0, 0, nil, "")
}

func (p *TermPool) Zext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return p.Extract(a, w-1, 0)
	}
	if a.isConst() {
		return p.mkConst(w, a.k)
	}
	if a.op == OZext {
		return p.Zext(a.a, w)
	}
	if a.op == OIte && iteConstLeaves(a, 4) {
		return p.Ite(a.a, p.Zext(a.b, w), p.Zext(a.c, w))
	}
	return p.mk(OZext, w, a, nil, nil, w-a.w, 0, nil, "")
}

func (p *TermPool) Sext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return p.Extract(a, w-1, 0)
	}
	if a.isConst() {
		return p.BigConst(w, toSigned(a.k, a.w))
	}
	if a.op == OZext {
		return p.Zext(a.a, w)
	}
	return p.mk(OSext, w, a, nil, nil, w-a.w, 0, nil, "")
}

func (p *TermPool) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Cmp width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		var c int
		switch op {
		case OUlt, OUle:
			c = a.k.Cmp(b.k)
		default:
			c = toSigned(a.k, a.w).Cmp(toSigned(b.k, b.w))
		}
		if op == OUlt || op == OSlt {
			return p.Bool(c < 0)
		}
		return p.Bool(c <= 0)
	}
	if a == b {
		return p.Bool(op == OUle || op == OSle)
	}
	w := a.w
	switch op {
	case OSlt, OSle:
		// both non-negative -> unsigned
		if p.highBit(a) < w && p.highBit(b) < w {
			if op == OSlt {
				return p.Cmp(OUlt, a, b)
			}
			return p.Cmp(OUle, a, b)
		}
	case OUlt:
		if b.isZero() {
			return p.F
		}
		if a.isConst() && a.k.Cmp(mask(w)) == 0 {
			return p.F
		}
	case OUle:
		if a.isZero() {
			return p.T
		}
		if b.isConst() && b.k.Cmp(mask(w)) == 0 {
			return p.T
		}
	}
	if op == OUlt || op == OUle {
		// narrow zext comparisons
		ha, hb := p.highBit(a), p.highBit(b)
		m := ha
		if hb > m {
			m = hb
		}
		if b.isConst() && ha < b.k.BitLen() {
			return p.T
		}
		if a.isConst() && hb < a.k.BitLen() {
			return p.F
		}
		if m < w && m > 0 {
			return p.Cmp(op, p.Extract(a, m-1, 0), p.Extract(b, m-1, 0))
		}
		if a.op == OIte && iteConstLeaves(a, 4) && b.isConst() {
			return p.Ite(a.a, p.Cmp(op, a.b, b), p.Cmp(op, a.c, b))
		}
	}
	if (op == OSlt || op == OSle) && a.op == OIte && iteConstLeaves(a, 4) && b.isConst() {
		return p.Ite(a.a, p.Cmp(op, a.b, b), p.Cmp(op, a.c, b))
	}
	return p.mk(op, 0, a, b, nil, 0, 0, nil, "")
}

// eval evaluates t under a model for variables (missing = 0).
func (t *Term) eval(m map[string]*big.Int, memo map[*Term]*big.Int) *big.Int {
	if t.op == OConst {
		return t.k
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r *big.Int
	one, zero := big.NewInt(1), big.NewInt(0)
	bb := func(b bool) *big.Int {
		if b {
			return one
		}
		return zero
	}
	switch t.op {
	case OVar:
		r = m[t.name]
		if r == nil {
			r = zero
		}
	case ONot:
		r = bb(t.a.eval(m, memo).Sign() == 0)
	case OAnd:
		r = bb(t.a.eval(m, memo).Sign() != 0 && t.b.eval(m, memo).Sign() != 0)
	case OOr:
		r = bb(t.a.eval(m, memo).Sign() != 0 || t.b.eval(m, memo).Sign() != 0)
	case OIte:
		if t.a.eval(m, memo).Sign() != 0 {
			r = t.b.eval(m, memo)
		} else {
			r = t.c.eval(m, memo)
		}
	case OEq:
		r = bb(t.a.eval(m, memo).Cmp(t.b.eval(m, memo)) == 0)
	case OUlt:
		r = bb(t.a.eval(m, memo).Cmp(t.b.eval(m, memo)) < 0)
	case OUle:
		r = bb(t.a.eval(m, memo).Cmp(t.b.eval(m, memo)) <= 0)
	case OSlt:
		r = bb(toSigned(t.a.eval(m, memo), t.a.w).Cmp(toSigned(t.b.eval(m, memo), t.a.w)) < 0)
	case OSle:
		r = bb(toSigned(t.a.eval(m, memo), t.a.w).Cmp(toSigned(t.b.eval(m, memo), t.a.w)) <= 0)
	case OBNot:
		r = new(big.Int).Xor(t.a.eval(m, memo), mask(t.w))
	case OConcat:
		r = new(big.Int).Lsh(t.a.eval(m, memo), uint(t.b.w))
		r.Or(r, t.b.eval(m, memo))
	case OExtract:
		r = new(big.Int).Rsh(t.a.eval(m, memo), uint(t.lo))
		r.And(r, mask(t.w))
	case OZext:
		r = t.a.eval(m, memo)
	case OSext:
		r = new(big.Int).And(toSigned(t.a.eval(m, memo), t.a.w), mask(t.w))
	default:
		x, y := t.a.eval(m, memo), t.b.eval(m, memo)
		r = (*TermPool)(nil).binConst(t.op, t.w, x, y)
		if r == nil {
			r = zero
			if t.op == OSRem {
				r = x
			}
			if t.op == OSDiv {
				if toSigned(x, t.w).Sign() >= 0 {
					r = mask(t.w)
				} else {
					r = one
				}
			}
		}
	}
	memo[t] = r
	return r
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.isTrue() {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		s := t.k.Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(s)) + s
	}
	s := t.k.Text(2)
	return "#b" + strings.Repeat("0", t.w-len(s)) + s
}

func (t *Term) String() string {
	var f func(t *Term, d int) string
	f = func(t *Term, d int) string {
		switch t.op {
		case OConst:
			return constStr(t)
		case OVar:
			return t.name
		}
		if d == 0 {
			return "..."
		}
		switch t.op {
		case OExtract:
			return fmt.Sprintf("%s[%d:%d]", f(t.a, d-1), t.hi, t.lo)
		case OZext:
			return "zx(" + f(t.a, d-1) + ")"
		case OSext:
			return "sx(" + f(t.a, d-1) + ")"
		}
		s := "(" + opNames[t.op]
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				s += " " + f(x, d-1)
			}
		}
		return s + ")"
	}
	return f(t, 6)
}
