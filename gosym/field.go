package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

const feT = "(*filippo.io/edwards25519/field.Element)."

// The field level. Outside the field model, elements of the base field are
// concrete (package-level constants). In the field model, they are symbolic
// elements of a small prime field, over which there is a curve of the same
// shape: -x^2+y^2 = 1+d*x^2*y^2 with p = 5 mod 8, d not a square, -1-d a
// square and 8 times an odd number of points. Everything the code does with
// field elements is carried out there; the constants of the real field are
// translated to those of the small one by their meaning.

type fcurve struct {
	p, d, i, s, t uint64 // i = sqrt(-1) even, s = sqrt(-d-1) odd, t = -1/s
	gx, gy        uint64
	bits          int
	even, all     [][2]uint64
}

var fcurves = []fcurve{
	{p: 29, d: 27, i: 12, s: 1, t: 28, gx: 2, gy: 23},
	{p: 53, d: 3, i: 30, s: 7, t: 15, gx: 4, gy: 43},
	{p: 37, d: 2, i: 6, s: 21, t: 7, gx: 8, gy: 10},
	{p: 61, d: 2, i: 50, s: 27, t: 9, gx: 14, gy: 27},
	{p: 101, d: 12, i: 10, s: 47, t: 58, gx: 2, gy: 54},
	{p: 109, d: 11, i: 76, s: 73, t: 106, gx: 14, gy: 54},
	{p: 229, d: 10, i: 122, s: 203, t: 185, gx: 4, gy: 200},
	{p: 293, d: 3, i: 138, s: 17, t: 224, gx: 21, gy: 159},
}

// fv is an element of the small field: a term times powers of variables that
// are not zero (the Z coordinates of arbitrary points), kept apart because
// they cancel in what does not depend on the representation.
type fv struct {
	t *Term
	e string // exponents, biased by 64, one byte per variable
}

// fpoint is a point of the small curve in extended coordinates.
type fpoint struct{ x, y, z, t *fv }

// Concrete arithmetic of the base field, used for the package-level constants.
func (p *Path) fe(v Value) *big.Int {
	o := p.opq(v)
	if o.v == nil {
		return new(big.Int)
	}
	k, ok := o.v.(*big.Int)
	if !ok {
		p.unsupported("field element payload %T", o.v)
	}
	return k
}

func hexInt(s string) *big.Int { k, _ := new(big.Int).SetString(s, 16); return k }

var fieldConsts struct {
	d, i, s, t *big.Int
}

func init() {
	f := &fieldConsts
	P := fpP
	f.d = new(big.Int).ModInverse(big.NewInt(121666), P)
	f.d.Mul(f.d, big.NewInt(-121665)).Mod(f.d, P)
	root := func(x *big.Int, odd uint) *big.Int {
		r := new(big.Int).ModSqrt(new(big.Int).Mod(x, P), P)
		if r.Bit(0) != odd {
			r.Sub(P, r)
		}
		return r
	}
	f.i = root(big.NewInt(-1), 0)
	x := new(big.Int).Neg(f.d)
	f.s = root(x.Sub(x, big.NewInt(1)), 1)
	f.t = new(big.Int).ModInverse(f.s, P)
	f.t.Sub(P, f.t)
}

// feTable maps elements of the real field to the small one.
func (c *fcurve) table() map[string]uint64 {
	tab := map[string]uint64{}
	type pair struct {
		r *big.Int
		s uint64
	}
	var base []pair
	put := func(r *big.Int, s uint64) bool {
		k := r.String()
		if _, ok := tab[k]; !ok {
			tab[k] = s
			return true
		}
		return false
	}
	m := func(x int64) uint64 {
		q := int64(c.p)
		return uint64((x%q + q) % q)
	}
	for k := int64(-1024); k <= 1024; k++ {
		put(new(big.Int).Mod(big.NewInt(k), fpP), m(k))
	}
	inv := func(x uint64) uint64 {
		return new(big.Int).Exp(new(big.Int).SetUint64(x), new(big.Int).SetUint64(c.p-2), new(big.Int).SetUint64(c.p)).Uint64()
	}
	f := &fieldConsts
	for _, b := range []pair{{f.d, c.d}, {f.i, c.i}, {f.s, c.s}, {f.t, c.t}, {big.NewInt(1), 1}, {big.NewInt(2), 2}} {
		base = append(base, b, pair{new(big.Int).Sub(fpP, b.r), c.p - b.s}, pair{new(big.Int).ModInverse(b.r, fpP), inv(b.s)})
	}
	one, dd := big.NewInt(1), new(big.Int).Mul(f.d, f.d)
	d1 := new(big.Int).Sub(f.d, one)
	for _, b := range []pair{
		{new(big.Int).Sub(one, dd), (1 + c.p - c.d*c.d%c.p) % c.p},
		{new(big.Int).Mul(d1, d1), (c.d + c.p - 1) * (c.d + c.p - 1) % c.p},
	} {
		b.r.Mod(b.r, fpP)
		base = append(base, b, pair{new(big.Int).Sub(fpP, b.r), c.p - b.s}, pair{new(big.Int).ModInverse(b.r, fpP), inv(b.s)})
	}
	for _, b := range base {
		put(b.r, b.s)
	}
	for level := 0; level < 2; level++ {
		n := base
		for _, a := range n {
			for _, b := range n[:min(len(n), 60)] {
				for _, x := range []pair{
					{new(big.Int).Add(a.r, b.r), (a.s + b.s) % c.p},
					{new(big.Int).Sub(a.r, b.r), (a.s + c.p - b.s) % c.p},
					{new(big.Int).Mul(a.r, b.r), a.s * b.s % c.p},
				} {
					x.r.Mod(x.r, fpP)
					if put(x.r, x.s) && x.s != 0 {
						base = append(base, x)
					}
				}
			}
		}
	}
	return tab
}

func (p *Path) feVal(v Value) *fv {
	o := p.opq(v)
	c := p.fc
	switch x := o.v.(type) {
	case nil:
		return &fv{t: p.fc0(0)}
	case *fv:
		return x
	case *big.Int:
		p.eng.mu.Lock()
		tab := p.eng.feTab[c.p]
		if tab == nil {
			tab = c.table()
			if p.eng.feTab == nil {
				p.eng.feTab = map[uint64]map[string]uint64{}
			}
			p.eng.feTab[c.p] = tab
		}
		s, ok := tab[x.String()]
		p.eng.mu.Unlock()
		if !ok {
			// no known meaning: some element
			s = new(big.Int).Mod(x, new(big.Int).SetUint64(c.p)).Uint64()
		}
		return &fv{t: p.fc0(s)}
	}
	p.unsupported("field element payload %T", o.v)
	return nil
}

func fexp(a, b string, f func(x, y int) int) string {
	n := max(len(a), len(b))
	r := make([]byte, n)
	at := func(s string, i int) int {
		if i < len(s) {
			return int(s[i]) - 64
		}
		return 0
	}
	for i := range r {
		r[i] = byte(f(at(a, i), at(b, i)) + 64)
	}
	for n > 0 && r[n-1] == 64 {
		n--
	}
	return string(r[:n])
}

// fmat is the value as a term.
func (p *Path) fmat(a *fv) *Term {
	t := a.t
	for i := 0; i < len(a.e); i++ {
		k := int(a.e[i]) - 64
		v := p.fvars[i]
		if k < 0 {
			v, k = p.tinv(v), -k
		}
		if k != 0 {
			x := p.fc0(1)
			for b := 6; b >= 0; b-- {
				x = p.tsq(x)
				if k>>uint(b)&1 == 1 {
					x = p.tmul(x, v)
				}
			}
			t = p.tmul(t, x)
		}
	}
	return t
}

// fsame brings two values to the same powers.
func (p *Path) fsame(a, b *fv) (*Term, *Term, string) {
	switch {
	case a.e == b.e:
		return a.t, b.t, a.e
	case a.t.isZero():
		return a.t, b.t, b.e
	case b.t.isZero():
		return a.t, b.t, a.e
	}
	return p.fmat(a), p.fmat(b), ""
}

func (p *Path) fcon(k uint64) *fv { return &fv{t: p.fc0(k)} }

func (p *Path) fadd(a, b *fv) *fv {
	x, y, e := p.fsame(a, b)
	return &fv{p.tadd(x, y), e}
}
func (p *Path) fneg(a *fv) *fv    { return &fv{p.tneg(a.t), a.e} }
func (p *Path) fsub(a, b *fv) *fv { return p.fadd(a, p.fneg(b)) }
func (p *Path) fmul(a, b *fv) *fv {
	return &fv{p.tmul(a.t, b.t), fexp(a.e, b.e, func(x, y int) int { return x + y })}
}
func (p *Path) fsq(a *fv) *fv { return p.fmul(a, a) }
func (p *Path) finv(a *fv) *fv {
	return &fv{p.tinv(a.t), fexp(a.e, "", func(x, _ int) int { return -x })}
}
func (p *Path) feq(a, b *fv) *Term {
	x, y, _ := p.fsame(a, b)
	return p.pool.Eq(x, y)
}
func (p *Path) fodd(a *fv) *Term { return p.todd(p.fmat(a)) }
func (p *Path) fabs(a *fv) *fv {
	if a.e == "" {
		return &fv{t: p.tabs(a.t)}
	}
	return &fv{p.pool.Ite(p.fodd(a), p.tneg(a.t), a.t), a.e}
}
func (p *Path) fite(c *Term, a, b *fv) *fv {
	x, y, e := p.fsame(a, b)
	return &fv{p.pool.Ite(c, x, y), e}
}
func (p *Path) fpow(a *fv, k uint64) *fv {
	if a.e == "" {
		return &fv{t: p.tpow(a.t, k)}
	}
	return &fv{t: p.tpow(p.fmat(a), k)}
}
func (p *Path) fsqrt(u, v *fv) (*fv, *Term) {
	e := fexp(u.e, v.e, func(x, y int) int { return x - y })
	odd := 0
	fexp(e, "", func(x, _ int) int { odd |= x & 1; return 0 })
	if odd != 0 {
		r, ws := p.tsqrt(p.fmat(u), p.fmat(v))
		return &fv{t: r}, ws
	}
	// the root of u/v is the root of what is left times half the powers, up
	// to sign
	r, ws := p.tsqrt(u.t, v.t)
	return p.fabs(&fv{r, fexp(e, "", func(x, _ int) int { return x / 2 })}), ws
}

func (p *Path) fc0(k uint64) *Term { return p.pool.Const(p.fc.bits, k) }

// fpoly is a polynomial over the small field in atomic terms; equal ones get
// the same term.
type fpoly map[string]uint64

func (f fpoly) key() string {
	var l []string
	for m, c := range f {
		l = append(l, fmt.Sprintf("%s:%d", m, c))
	}
	sort.Strings(l)
	return strings.Join(l, "+")
}

// polyOf: a monomial is a string of the 4-byte numbers of its atoms, sorted.
func (p *Path) polyOf(t *Term) fpoly {
	if t.isConst() {
		if t.isZero() {
			return fpoly{}
		}
		return fpoly{"": t.k.Uint64()}
	}
	if f, ok := p.fpolys[t]; ok {
		return f
	}
	id := t.id
	f := fpoly{string([]byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)}): 1}
	if p.fpolys == nil {
		p.fpolys, p.freps = map[*Term]fpoly{}, map[string]*Term{}
	}
	p.fpolys[t] = f
	return f
}

func monoMul(a, b string) string {
	r := make([]byte, 0, len(a)+len(b))
	for len(a) > 0 && len(b) > 0 {
		if a[:4] <= b[:4] {
			r, a = append(r, a[:4]...), a[4:]
		} else {
			r, b = append(r, b[:4]...), b[4:]
		}
	}
	return string(append(append(r, a...), b...))
}

// canon returns the term known for this polynomial, or makes one.
func (p *Path) canon(f fpoly, mk func() *Term) *Term {
	for m, c := range f {
		if c == 0 {
			delete(f, m)
		}
	}
	if len(f) == 0 {
		return p.fc0(0)
	}
	if len(f) == 1 {
		for m, c := range f {
			if m == "" {
				return p.fc0(c)
			}
		}
	}
	k := f.key()
	if t, ok := p.freps[k]; ok {
		return t
	}
	t := mk()
	if p.fpolys == nil {
		p.fpolys, p.freps = map[*Term]fpoly{}, map[string]*Term{}
	}
	if _, ok := p.fpolys[t]; !ok {
		p.fpolys[t] = f
	}
	p.freps[k] = t
	return t
}

const maxPoly = 400

func (p *Path) tadd(a, b *Term) *Term {
	x, y := p.polyOf(a), p.polyOf(b)
	if len(x)+len(y) > maxPoly {
		return p.tadd1(a, b)
	}
	f := fpoly{}
	for m, c := range x {
		f[m] = c
	}
	for m, c := range y {
		f[m] = (f[m] + c) % p.fc.p
	}
	return p.canon(f, func() *Term { return p.tadd1(a, b) })
}

func (p *Path) tneg(a *Term) *Term {
	f := fpoly{}
	for m, c := range p.polyOf(a) {
		f[m] = p.fc.p - c
	}
	return p.canon(f, func() *Term { return p.tneg1(a) })
}

func (p *Path) tmul(a, b *Term) *Term {
	x, y := p.polyOf(a), p.polyOf(b)
	if len(x)*len(y) > maxPoly {
		return p.tmul1(a, b)
	}
	f := fpoly{}
	for m, c := range x {
		for n, d := range y {
			k := monoMul(m, n)
			f[k] = (f[k] + c*d) % p.fc.p
		}
	}
	return p.canon(f, func() *Term { return p.tmul1(a, b) })
}

func (p *Path) tsub(a, b *Term) *Term { return p.tadd(a, p.tneg(b)) }

func (p *Path) tadd1(a, b *Term) *Term {
	w := p.fc.bits + 1
	P := p.pool.Const(w, p.fc.p)
	s := p.pool.Bin(OAdd, p.pool.Zext(a, w), p.pool.Zext(b, w))
	s = p.pool.Ite(p.pool.Cmp(OUle, P, s), p.pool.Bin(OSub, s, P), s)
	return p.pool.Extract(s, w-2, 0)
}

func (p *Path) tneg1(a *Term) *Term {
	z := p.fc0(0)
	return p.pool.Ite(p.pool.Eq(a, z), z, p.pool.Bin(OSub, p.fc0(p.fc.p), a))
}

func (p *Path) tmul1(a, b *Term) *Term {
	for k := 0; k < 2; k++ {
		if a.isConst() {
			switch a.k.Uint64() {
			case 0:
				return a
			case 1:
				return b
			case p.fc.p - 1:
				return p.tneg(b)
			}
		}
		a, b = b, a
	}
	if tid(a) > tid(b) {
		a, b = b, a
	}
	w := 2 * p.fc.bits
	x := p.pool.Bin(OMul, p.pool.Zext(a, w), p.pool.Zext(b, w))
	r := p.pool.Bin(OURem, x, p.pool.Const(w, p.fc.p))
	return p.pool.Extract(r, p.fc.bits-1, 0)
}

func (p *Path) tsq(a *Term) *Term { return p.tmul(a, a) }

func (p *Path) ffresh(name string) *Term {
	r := p.fresh(name, p.fc.bits)
	p.Constrain(p.pool.Cmp(OUlt, r, p.fc0(p.fc.p)))
	return r
}

func (p *Path) tpow(a *Term, k uint64) *Term {
	r := p.fc0(1)
	for i := 63; i >= 0; i-- {
		r = p.tsq(r)
		if k>>uint(i)&1 == 1 {
			r = p.tmul(r, a)
		}
	}
	return r
}

func (p *Path) tinv(a *Term) *Term {
	if a.isConst() {
		return p.tpow(a, p.fc.p-2)
	}
	if r, ok := p.fcache[fkey{"inv", a, nil}]; ok {
		return r[0]
	}
	r := p.ffresh("finv")
	z := p.fc0(0)
	p.Constrain(p.pool.Ite(p.pool.Eq(a, z), p.pool.Eq(r, z), p.pool.Eq(p.tmul(a, r), p.fc0(1))))
	p.fcache[fkey{"inv", a, nil}] = [2]*Term{r, nil}
	return r
}

func (p *Path) todd(a *Term) *Term {
	return p.pool.Eq(p.pool.Extract(a, 0, 0), p.pool.Const(1, 1))
}

func (p *Path) tabs(a *Term) *Term { return p.pool.Ite(p.todd(a), p.tneg(a), a) }

// tsqrt is the library's SqrtRatio: the non-negative root of u/v, or of i*u/v.
func (p *Path) tsqrt(u, v *Term) (*Term, *Term) {
	key := fkey{"sqrt", u, v}
	if r, ok := p.fcache[key]; ok {
		return r[0], r[1]
	}
	z := p.fc0(0)
	r := p.ffresh("fsqrt")
	ws := p.pool.Eq(p.fresh("fsq", 1), p.pool.Const(1, 1))
	p.Constrain(p.pool.Not(p.todd(r)))
	vr2 := p.tmul(v, p.tsq(r))
	rz := p.pool.Eq(r, z)
	p.Constrain(p.pool.Ite(p.pool.Eq(u, z), p.pool.And(rz, ws),
		p.pool.Ite(p.pool.Eq(v, z), p.pool.And(rz, p.pool.Not(ws)),
			p.pool.Ite(ws, p.pool.Eq(vr2, u), p.pool.Eq(vr2, p.tmul(p.fc0(p.fc.i), u))))))
	p.fcache[key] = [2]*Term{r, ws}
	return r, ws
}

type fkey struct {
	op   string
	a, b *Term
}

func (p *Path) b01(c *Term) Value {
	return fromTerm(p.pool.Ite(c, p.pool.Const(64, 1), p.pool.Const(64, 0)))
}

// fbytes is the 32-byte little-endian form.
func (p *Path) fbytes(a *Term) []Value {
	b := make([]Value, 32)
	for i := range b {
		b[i] = uint64(0)
	}
	e := p.pool.Zext(a, 16)
	b[0] = fromTerm(p.pool.Extract(e, 7, 0))
	b[1] = fromTerm(p.pool.Extract(e, 15, 8))
	return b
}

// fset reads 32 bytes modulo p, ignoring the top bit.
func (p *Path) fset(b []Value) *Term {
	w := p.fc.bits + 16
	sum := p.pool.Const(w, 0)
	pw := uint64(1)
	for i, v := range b {
		t := p.pool.Zext(p.term(v, 8), w)
		if i == 31 {
			t = p.pool.Bin(OBAnd, t, p.pool.Const(w, 127))
		}
		sum = p.pool.Bin(OAdd, sum, p.pool.Bin(OMul, t, p.pool.Const(w, pw)))
		pw = pw * 256 % p.fc.p
	}
	r := p.pool.Bin(OURem, sum, p.pool.Const(w, p.fc.p))
	return p.pool.Extract(r, p.fc.bits-1, 0)
}

func init() {
	type bigF func(p *Path, a []Value) *big.Int
	type symF func(p *Path, a []Value) *fv
	op := func(name string, f bigF, g symF) {
		def(feT+name, func(p *Path, a []Value) Value {
			o := p.opq(a[0])
			if p.fc != nil {
				o.v = g(p, a)
				return a[0]
			}
			if f == nil {
				p.unsupported("field element %s outside the field model", name)
			}
			r := f(p, a)
			o.v = r.Mod(r, fpP)
			return a[0]
		})
	}
	B := func(f func(z, x, y *big.Int) *big.Int) bigF {
		return func(p *Path, a []Value) *big.Int { return f(new(big.Int), p.fe(a[1]), p.fe(a[2])) }
	}
	T := func(f func(p *Path, x, y *fv) *fv) symF {
		return func(p *Path, a []Value) *fv { return f(p, p.feVal(a[1]), p.feVal(a[2])) }
	}
	T1 := func(f func(p *Path, x *fv) *fv) symF {
		return func(p *Path, a []Value) *fv { return f(p, p.feVal(a[1])) }
	}
	op("Add", B((*big.Int).Add), T((*Path).fadd))
	op("Subtract", B((*big.Int).Sub), T((*Path).fsub))
	op("Multiply", B((*big.Int).Mul), T((*Path).fmul))
	op("One", func(p *Path, a []Value) *big.Int { return big.NewInt(1) }, func(p *Path, a []Value) *fv { return p.fcon(1) })
	op("Zero", func(p *Path, a []Value) *big.Int { return new(big.Int) }, func(p *Path, a []Value) *fv { return p.fcon(0) })
	op("Set", func(p *Path, a []Value) *big.Int { return new(big.Int).Set(p.fe(a[1])) }, T1(func(p *Path, x *fv) *fv { return x }))
	op("Negate", func(p *Path, a []Value) *big.Int { return new(big.Int).Neg(p.fe(a[1])) }, T1((*Path).fneg))
	op("Square", func(p *Path, a []Value) *big.Int { return new(big.Int).Mul(p.fe(a[1]), p.fe(a[1])) }, T1((*Path).fsq))
	op("Invert", func(p *Path, a []Value) *big.Int {
		return new(big.Int).Exp(p.fe(a[1]), new(big.Int).Sub(fpP, big.NewInt(2)), fpP)
	}, T1((*Path).finv))
	op("Absolute", func(p *Path, a []Value) *big.Int {
		x := new(big.Int).Set(p.fe(a[1]))
		if x.Bit(0) == 1 {
			x.Neg(x)
		}
		return x
	}, T1((*Path).fabs))
	op("Pow22523", func(p *Path, a []Value) *big.Int {
		e := new(big.Int).Sub(fpP, big.NewInt(5))
		return new(big.Int).Exp(p.fe(a[1]), e.Rsh(e, 3), fpP)
	}, T1(func(p *Path, x *fv) *fv { return p.fpow(x, (p.fc.p-5)/8) }))
	op("Mult32", func(p *Path, a []Value) *big.Int {
		return new(big.Int).Mul(p.fe(a[1]), new(big.Int).SetUint64(p.Concrete(a[2])))
	}, func(p *Path, a []Value) *fv {
		return p.fmul(p.feVal(a[1]), p.fcon(p.Concrete(a[2])%p.fc.p))
	})
	cond := func(p *Path, v Value) *Term { return p.pool.Eq(p.term(v, 64), p.pool.Const(64, 1)) }
	op("Select", func(p *Path, a []Value) *big.Int {
		if p.Concrete(a[3]) == 1 {
			return new(big.Int).Set(p.fe(a[1]))
		}
		return new(big.Int).Set(p.fe(a[2]))
	}, func(p *Path, a []Value) *fv {
		return p.fite(cond(p, a[3]), p.feVal(a[1]), p.feVal(a[2]))
	})
	def(feT+"Swap", func(p *Path, a []Value) Value {
		if p.fc == nil {
			p.unsupported("field element Swap outside the field model")
		}
		c, x, y := cond(p, a[2]), p.feVal(a[0]), p.feVal(a[1])
		p.opq(a[0]).v = p.fite(c, y, x)
		p.opq(a[1]).v = p.fite(c, x, y)
		return nil
	})
	def(feT+"Equal", func(p *Path, a []Value) Value {
		if p.fc != nil {
			return p.b01(p.feq(p.feVal(a[0]), p.feVal(a[1])))
		}
		return b2u(p.fe(a[0]).Cmp(p.fe(a[1])) == 0)
	})
	def(feT+"IsNegative", func(p *Path, a []Value) Value {
		if p.fc != nil {
			return p.b01(p.fodd(p.feVal(a[0])))
		}
		return b2u(p.fe(a[0]).Bit(0) == 1)
	})
	def(feT+"Bytes", func(p *Path, a []Value) Value {
		if p.fc != nil {
			return p.newBytes(p.fbytes(p.fmat(p.feVal(a[0]))))
		}
		k := p.fe(a[0]).FillBytes(make([]byte, 32))
		b := make([]Value, 32)
		for i := range b {
			b[i] = uint64(k[31-i])
		}
		return p.newBytes(b)
	})
	def(feT+"SqrtRatio", func(p *Path, a []Value) Value {
		if p.fc == nil {
			p.unsupported("field element SqrtRatio outside the field model")
		}
		r, ws := p.fsqrt(p.feVal(a[1]), p.feVal(a[2]))
		p.opq(a[0]).v = r
		return Tuple{a[0], p.b01(ws)}
	})
	def(feT+"SetBytes", func(p *Path, a []Value) Value {
		b := p.sliceBytes(a[1])
		if len(b) != 32 {
			return Tuple{nil, p.hostErr("edwards25519: invalid field element input size")}
		}
		if p.fc != nil && !p.allConcrete(b) {
			p.opq(a[0]).v = &fv{t: p.fset(b)}
			return Tuple{a[0], nil}
		}
		if !p.allConcrete(b) {
			p.unsupported("symbolic field element outside the field model")
		}
		k := concLE(b)
		k.SetBit(k, 255, 0)
		p.opq(a[0]).v = k.Mod(k, fpP)
		return Tuple{a[0], nil}
	})

	// points, at the field level
	P := "(*" + edPkg + ".Point)."
	def(P+"ExtendedCoordinates", func(p *Path, a []Value) Value {
		if p.fc == nil {
			p.unsupported("coordinates outside the field model")
		}
		q := p.fpt(a[0])
		el := func(t *fv) Value { return p.newOpq(p.eng.fieldT, t) }
		return Tuple{el(q.x), el(q.y), el(q.z), el(q.t)}
	})
	def(P+"SetExtendedCoordinates", func(p *Path, a []Value) Value {
		if p.fc == nil {
			p.unsupported("coordinates outside the field model")
		}
		q := &fpoint{p.feVal(a[1]), p.feVal(a[2]), p.feVal(a[3]), p.feVal(a[4])}
		if !p.Decide(p.onCurve(q)) {
			return Tuple{nil, p.hostErr("edwards25519: invalid point coordinates")}
		}
		p.opq(a[0]).v = q
		return Tuple{a[0], nil}
	})
}

func (p *Path) onCurve(q *fpoint) *Term {
	l := p.fsub(p.fsq(q.y), p.fsq(q.x))
	r := p.fadd(p.fmul(p.fcon(p.fc.d), p.fsq(q.t)), p.fsq(q.z))
	return p.pool.And(p.feq(l, r), p.feq(p.fmul(q.x, q.y), p.fmul(q.z, q.t)))
}

func (p *Path) fpt(v Value) *fpoint {
	o := p.opq(v)
	if o.v == nil {
		p.userPanic("edwards25519: use of uninitialized Point")
	}
	q, ok := o.v.(*fpoint)
	if !ok {
		p.unsupported("point payload %T in the field model", o.v)
	}
	return q
}

func (p *Path) fpAdd(a, b *fpoint) *fpoint {
	two := p.fcon(2)
	A := p.fmul(p.fsub(a.y, a.x), p.fsub(b.y, b.x))
	B := p.fmul(p.fadd(a.y, a.x), p.fadd(b.y, b.x))
	C := p.fmul(p.fmul(a.t, b.t), p.fmul(two, p.fcon(p.fc.d)))
	D := p.fmul(two, p.fmul(a.z, b.z))
	E, F, G, H := p.fsub(B, A), p.fsub(D, C), p.fadd(D, C), p.fadd(B, A)
	return &fpoint{p.fmul(E, F), p.fmul(G, H), p.fmul(F, G), p.fmul(E, H)}
}

// fieldPoint carries out a point operation at the field level.
func (p *Path) fieldPoint(name string, a []Value) Value {
	c := p.fcon
	neg := func(q *fpoint) *fpoint { return &fpoint{p.fneg(q.x), q.y, q.z, p.fneg(q.t)} }
	set := func(q *fpoint) Value { return p.setOpq(a[0], q) }
	switch name {
	case "NewIdentityPoint":
		return p.newOpq(p.eng.pointT, &fpoint{c(0), c(1), c(1), c(0)})
	case "NewGeneratorPoint":
		return p.newOpq(p.eng.pointT, &fpoint{c(p.fc.gx), c(p.fc.gy), c(1), c(p.fc.gx * p.fc.gy % p.fc.p)})
	case "Set":
		return p.setOpq(a[0], p.opq(a[1]).v)
	case "Add":
		return set(p.fpAdd(p.fpt(a[1]), p.fpt(a[2])))
	case "Subtract":
		return set(p.fpAdd(p.fpt(a[1]), neg(p.fpt(a[2]))))
	case "Negate":
		return set(neg(p.fpt(a[1])))
	case "MultByCofactor":
		return set(p.fpScale(8, p.fpt(a[1])))
	case "Equal":
		x, y := p.fpt(a[0]), p.fpt(a[1])
		return p.b01(p.pool.And(p.feq(p.fmul(x.x, y.z), p.fmul(y.x, x.z)), p.feq(p.fmul(x.y, y.z), p.fmul(y.y, x.z))))
	}
	switch name {
	case "ScalarMult":
		return set(p.fpScale(p.fscalar(a[1]), p.fpt(a[2])))
	case "ScalarBaseMult":
		return set(p.fpScale(p.fscalar(a[1]), &fpoint{c(p.fc.gx), c(p.fc.gy), c(1), c(p.fc.gx * p.fc.gy % p.fc.p)}))
	case "VarTimeDoubleScalarBaseMult":
		g := &fpoint{c(p.fc.gx), c(p.fc.gy), c(1), c(p.fc.gx * p.fc.gy % p.fc.p)}
		return set(p.fpAdd(p.fpScale(p.fscalar(a[1]), p.fpt(a[2])), p.fpScale(p.fscalar(a[3]), g)))
	case "Bytes":
		q := p.fpt(a[0])
		zi := p.finv(q.z)
		b := p.fbytes(p.fmat(p.fmul(q.y, zi)))
		sign := p.pool.Ite(p.fodd(p.fmul(q.x, zi)), p.pool.Const(8, 128), p.pool.Const(8, 0))
		b[31] = fromTerm(p.pool.Bin(OBOr, p.term(b[31], 8), sign))
		return p.newBytes(b)
	}
	p.unsupported("point %s in the field model", name)
	return nil
}

func (c *fcurve) add(a, b [2]uint64) [2]uint64 {
	P := c.p
	inv := func(x uint64) uint64 {
		r := uint64(1)
		for k := P - 2; k > 0; k-- {
			r = r * x % P
		}
		return r
	}
	t := c.d * (a[0] * b[0] % P) % P * (a[1] * b[1] % P) % P
	return [2]uint64{
		(a[0]*b[1] + a[1]*b[0]) % P * inv((1+t)%P) % P,
		(a[1]*b[1] + a[0]*b[0]) % P * inv((1+P-t)%P) % P,
	}
}

// points lists all points of the curve.
func (c *fcurve) points() [][2]uint64 {
	if c.all == nil {
		P := c.p
		for x := uint64(0); x < P; x++ {
			for y := uint64(0); y < P; y++ {
				xx, yy := x*x%P, y*y%P
				if (yy+P-xx)%P == (1+c.d*xx%P*yy)%P {
					c.all = append(c.all, [2]uint64{x, y})
				}
			}
		}
	}
	return c.all
}

// fscalar translates a constant scalar, given as a fraction of small numbers,
// to the group of the small curve: the residue modulo the odd part m of the
// order has the same meaning, the one modulo 8 (which acts on the torsion) is
// that of the real scalar.
func (p *Path) fscalar(v Value) uint64 {
	k := p.sc(v)
	if k == nil || k.op != fConst {
		p.unsupported("symbolic scalar in the field model")
	}
	m := uint64(len(p.fc.points()) / 8)
	for den := int64(1); den <= 64; den++ {
		for sign := int64(1); sign >= -1; sign -= 2 {
			n := new(big.Int).Mul(k.k, big.NewInt(den*sign))
			n.Mod(n, ffQ)
			if n.BitLen() > 16 || den%int64(m) == 0 {
				continue
			}
			tau := new(big.Int).And(k.k, big.NewInt(7)).Uint64()
			for r := uint64(0); r < 8*m; r++ {
				want := n.Uint64() % m
				if sign < 0 {
					want = (m - want) % m
				}
				if r%8 == tau && r*uint64(den)%m == want {
					return r
				}
			}
		}
	}
	p.unsupported("scalar without a meaning in the field model")
	return 0
}

// fpScale is the multiple of a point, as a table.
func (p *Path) fpScale(k uint64, q *fpoint) *fpoint {
	zi := p.finv(q.z)
	x, y := p.fmat(p.fmul(q.x, zi)), p.fmat(p.fmul(q.y, zi))
	rx, ry := p.fc0(0), p.fc0(1)
	for _, pt := range p.fc.points() {
		r := [2]uint64{0, 1}
		for i := uint64(0); i < k; i++ {
			r = p.fc.add(r, pt)
		}
		c := p.pool.And(p.pool.Eq(x, p.fc0(pt[0])), p.pool.Eq(y, p.fc0(pt[1])))
		rx, ry = p.pool.Ite(c, p.fc0(r[0]), rx), p.pool.Ite(c, p.fc0(r[1]), ry)
	}
	return &fpoint{&fv{t: rx}, &fv{t: ry}, p.fcon(1), p.fmul(&fv{t: rx}, &fv{t: ry})}
}

// evenPoints lists the points of the even subgroup.
func (c *fcurve) evenPoints() [][2]uint64 {
	if c.even != nil {
		return c.even
	}
	P := c.p
	sq := make([]bool, P)
	for x := uint64(0); x < P; x++ {
		sq[x*x%P] = true
	}
	for x := uint64(0); x < P; x++ {
		for y := uint64(0); y < P; y++ {
			xx, yy := x*x%P, y*y%P
			if (yy+P-xx)%P != (1+c.d*xx%P*yy)%P {
				continue
			}
			// even: (1+y)/(1-y) is a square, or y = 1, -1
			if sq[(1+y)%P*((1+P-y)%P)%P] {
				c.even = append(c.even, [2]uint64{x, y})
			}
		}
	}
	return c.even
}

// lookup is the table entry number k.
func (p *Path) lookup(tab []*Term, k *Term, bit int) *Term {
	if len(tab) == 1 {
		return tab[0]
	}
	h := 1 << uint(bit)
	if len(tab) <= h {
		return p.lookup(tab, k, bit-1)
	}
	return p.pool.Ite(p.pool.Eq(p.pool.Extract(k, bit, bit), p.pool.Const(1, 1)), p.lookup(tab[h:], k, bit-1), p.lookup(tab[:h], k, bit-1))
}

// curvePoint is an arbitrary point of the even subgroup in arbitrary
// coordinates.
func (p *Path) curvePoint() *fpoint {
	pts := p.fc.evenPoints()
	w := 1
	for 1<<uint(w) < len(pts) {
		w++
	}
	k := p.fresh("fpt", w)
	p.Constrain(p.pool.Cmp(OUle, k, p.pool.Const(w, uint64(len(pts)-1))))
	var xs, ys, ts []*Term
	for _, q := range pts {
		xs, ys, ts = append(xs, p.fc0(q[0])), append(ys, p.fc0(q[1])), append(ts, p.fc0(q[0]*q[1]%p.fc.p))
	}
	x, y, t := p.lookup(xs, k, w-1), p.lookup(ys, k, w-1), p.lookup(ts, k, w-1)
	z := p.ffresh("fz")
	p.Constrain(p.pool.Not(p.pool.Eq(z, p.fc0(0))))
	e := strings.Repeat("@", len(p.fvars)) + "A"
	p.fvars = append(p.fvars, z)
	return &fpoint{&fv{x, e}, &fv{y, e}, &fv{p.fc0(1), e}, &fv{t, e}}
}
