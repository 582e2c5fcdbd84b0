// Package c25: arithmetic of group elements.
package c25

import (
	"encoding/base64"

	"filippo.io/edwards25519"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "arbitrary elements in every internal representation and arbitrary scalars, zero and the identity included; receivers that are new, hold another element, or are one of the operands, and equal operands; sums of 0..4 (quick) or 0..6 products and of the numbers up to 36 (thorough 70) that the code treats specially and 258, with repeated operands; two concurrent operations on receivers of their own and a shared operand; texts of 31, 32 and 33 arbitrary bytes and malformed ones"

const Assumptions = "filippo.io/edwards25519 adds and multiplies points correctly (its accumulating multi-scalar multiplication is modelled as it is)"

type element = ristretto.Element

// val is the element's value, independent of the operations under test.
type val struct{ p *edwards25519.Point }

func of(e *element) val { return val{vsym.Point(e)} }

func (v val) plus(w val) val { return val{edwards25519.NewIdentityPoint().Add(v.p, w.p)} }
func (v val) neg() val       { return val{edwards25519.NewIdentityPoint().Negate(v.p)} }
func (v val) times(s *ristretto.Scalar) val {
	return val{edwards25519.NewIdentityPoint().ScalarMult(s, v.p)}
}

func zero() val { return val{edwards25519.NewIdentityPoint()} }
func base() val { return val{edwards25519.NewGeneratorPoint()} }

// is the element this value?
func (v val) is(e *element) bool {
	return vsym.ElementOf(v.p).Equal(e) == 1
}

// receiver is the element that receives a result: a new one, one in use, or one
// of the operands.
func receiver(ops ...*element) *element {
	k := vsym.Choose("receiver", 3+len(ops))
	switch k {
	case 0:
		return new(element)
	case 1:
		return ristretto.NewIdentityElement()
	case 2:
		return vsym.Element("old")
	}
	return ops[k-3]
}

// untouched checks that no operand other than the receiver has changed.
func untouched(r *element, ops []*element, was []val) {
	for i, o := range ops {
		if o != r {
			vsym.Assert(was[i].is(o), "operands-untouched")
		}
	}
}

// CheckSums: the operations on elements.
func CheckSums() {
	p, q := vsym.Element("p"), vsym.Element("q")
	if vsym.Choose("same", 2) == 1 {
		q = p
	}
	P, Q := of(p), of(q)
	r := receiver(p, q)
	var want val
	var got *element
	switch vsym.Choose("operation", 4) {
	case 0:
		want, got = P.plus(Q), r.Add(p, q)
	case 1:
		want, got = P.plus(Q.neg()), r.Subtract(p, q)
	case 2:
		want, got = P.neg(), r.Negate(p)
	case 3:
		want, got = P, r.Set(p)
	}
	vsym.Assert(got == r && want.is(r), "result")
	untouched(r, []*element{p, q}, []val{P, Q})
	// what was returned is independent of the operands
	if r != p && r != q {
		p.Add(p, ristretto.NewGeneratorElement())
		vsym.Assert(want.is(r), "result-independent-of-operands")
		r.Negate(r)
		vsym.Assert(P.plus(base()).is(p), "operands-independent-of-result")
	}
	vsym.Cover("sums")
}

// CheckProducts: the operations on a scalar and an element.
func CheckProducts() {
	p := vsym.Element("p")
	s, t := vsym.Scalar("s"), vsym.Scalar("t")
	if vsym.Choose("same", 2) == 1 {
		t = s
	}
	S, T := lib.CopyS(s), lib.CopyS(t)
	P := of(p)
	r := receiver(p)
	var want val
	var got *element
	switch vsym.Choose("operation", 3) {
	case 0:
		want, got = base().times(S), r.ScalarBaseMult(s)
	case 1:
		want, got = P.times(S), r.ScalarMult(s, p)
	case 2:
		want, got = P.times(S).plus(base().times(T)), r.VarTimeDoubleScalarBaseMult(s, p, t)
	}
	vsym.Assert(got == r && want.is(r), "result")
	untouched(r, []*element{p}, []val{P})
	vsym.Assert(lib.SEq(s, S) && lib.SEq(t, T), "scalars-untouched")
	vsym.Cover("products")
}

func multi(n int, repeat, zeros bool) {
	var ss, ks []*ristretto.Scalar
	var ps []*element
	var was []val
	want := zero()
	for i := 0; i < n; i++ {
		s, p := vsym.Scalar("s"), vsym.Element("p")
		if repeat && i == n-1 && i > 0 {
			s, p = ss[0], ps[0]
		}
		if zeros && i == n/2 {
			s, p = ristretto.NewScalar(), ristretto.NewIdentityElement()
		}
		ss, ps, ks, was = append(ss, s), append(ps, p), append(ks, lib.CopyS(s)), append(was, of(p))
		want = want.plus(was[i].times(s))
	}
	r := receiver(ps[:min2(n, 2)]...)
	keepS, keepP := append([]*ristretto.Scalar{}, ss...), append([]*element{}, ps...)
	var got *element
	if vsym.Choose("operation", 2) == 0 {
		got = r.MultiScalarMult(ss, ps)
	} else {
		got = r.VarTimeMultiScalarMult(ss, ps)
	}
	vsym.Assert(got == r && want.is(r), "sum-of-products")
	untouched(r, ps, was)
	for i := range ss {
		vsym.Assert(ss[i] == keepS[i] && ps[i] == keepP[i], "operands-untouched")
		vsym.Assert(lib.SEq(ss[i], ks[i]), "scalars-untouched")
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// CheckMulti: sums of products.
func CheckMulti() {
	kind := vsym.Choose("kind", 3)
	multi(vsym.Choose("n", 5+2*vsym.Tier()), kind == 1, kind == 2)
	vsym.Cover("multi")
}

// CheckMany: sums of many products.
func CheckMany() {
	vsym.Deep()
	multi(vsym.Count("n", lib.Limit(), 12, 258), false, false)
	vsym.Cover("many")
}

// CheckMismatch: lists of different lengths are refused.
func CheckMismatch() {
	n, m := vsym.Choose("n", 3), vsym.Choose("m", 3)
	var ss []*ristretto.Scalar
	var ps []*element
	for i := 0; i < n; i++ {
		ss = append(ss, vsym.Scalar("s"))
	}
	for i := 0; i < m; i++ {
		ps = append(ps, vsym.Element("p"))
	}
	r := vsym.Element("old")
	R := of(r)
	refused := vsym.Panics(func() {
		if vsym.Choose("operation", 2) == 0 {
			r.MultiScalarMult(ss, ps)
		} else {
			r.VarTimeMultiScalarMult(ss, ps)
		}
	})
	vsym.Assert(refused == (n != m), "different-lengths-refused")
	if refused {
		vsym.Assert(R.is(r), "refused-without-effect")
		vsym.Cover("refused")
	}
}

// CheckConstants: zero, the identity and the generator are new every time.
func CheckConstants() {
	for i := 0; i < 2; i++ {
		e, g, s := ristretto.NewIdentityElement(), ristretto.NewGeneratorElement(), ristretto.NewScalar()
		vsym.Assert(zero().is(e), "identity")
		vsym.Assert(base().is(g), "generator")
		vsym.Assert(lib.SZero(s) && lib.SEq(s, lib.SSub(lib.One(), lib.One())), "zero")
		e.Set(vsym.Element("p"))
		g.ScalarBaseMult(vsym.Scalar("s"))
		s.Add(s, vsym.Scalar("t"))
	}
	vsym.Cover("constants")
}

// CheckText: texts.
func CheckText() {
	p, q := vsym.Element("p"), vsym.Element("q")
	P, Q := of(p), of(q)
	t, err := p.MarshalText()
	vsym.Assert(err == nil, "text-encodes")
	keep := append([]byte{}, t...)
	vsym.Assert(string(t) == p.String(), "text-is-string")
	u, err := q.MarshalText()
	vsym.Assert(err == nil, "text-encodes")
	vsym.Assert((string(t) == string(u)) == (p.Equal(q) == 1), "texts-distinct")
	b := p.Bytes()
	vsym.Assert(string(t) == base64.StdEncoding.EncodeToString(b), "text-is-base64-of-encoding")
	r := receiver(q)
	vsym.Assert(r.UnmarshalText(t) == nil && P.is(r), "text-round-trip")
	vsym.Assert(lib.BytesEq(t, keep), "text-untouched")
	for i := range u {
		u[i], t[i] = 0, 'A'
	}
	for i := range b {
		b[i] = 0
	}
	vsym.Assert(P.is(r) && P.is(p) && (r == q || Q.is(q)), "element-independent-of-text")
	vsym.Cover("text")
}

var malformed = []string{"", "A", "====", "not base64!", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=AAAA"}

// CheckBadText: texts that are no elements.
func CheckBadText() {
	r := vsym.Element("old")
	R := of(r)
	n := vsym.Choose("n", 3+len(malformed))
	var err error
	ok := false
	if n < 3 {
		b := vsym.Bytes("bytes", 31+n)
		err = r.UnmarshalText([]byte(base64.StdEncoding.EncodeToString(b)))
		if n == 1 {
			var e element
			_, derr := e.SetCanonicalBytes(b)
			ok = derr == nil
			if ok {
				vsym.Assert(of(&e).is(r), "text-value")
			}
		}
	} else {
		err = r.UnmarshalText([]byte(malformed[n-3]))
	}
	vsym.Assert((err == nil) == ok, "malformed-text-refused")
	if err != nil {
		vsym.Assert(R.is(r), "refused-without-effect")
		vsym.Cover("refused")
	} else {
		vsym.Cover("decoded")
	}
}

// CheckKept: encodings belong to the caller.
func CheckKept() {
	p, q := vsym.Element("p"), vsym.Element("q")
	P := of(p)
	a, c := p.Bytes(), p.BytesEd25519()
	ka, kc := append([]byte{}, a...), append([]byte{}, c...)
	b, d := q.Bytes(), q.BytesEd25519()
	vsym.Assert(lib.BytesEq(a, ka) && lib.BytesEq(c, kc), "earlier-encoding-kept")
	for i := range b {
		b[i], d[i] = 0xff, 0xff
	}
	b, d = append(b, 1), append(d, 1)
	vsym.Assert(lib.BytesEq(a, ka) && lib.BytesEq(c, kc), "earlier-encoding-kept")
	vsym.Assert(lib.BytesEq(p.Bytes(), ka) && lib.BytesEq(p.BytesEd25519(), kc) && P.is(p), "encoding-repeatable")
	var e element
	_, err := e.SetCanonicalBytes(a)
	vsym.Assert(err == nil && P.is(&e), "encoding-decodes")
	for i := range a {
		a[i] = 0
	}
	vsym.Assert(P.is(&e), "decoded-independent-of-encoding")
	vsym.Cover("kept")
}

// CheckConcurrent: operations on different receivers may run concurrently.
func CheckConcurrent() {
	vsym.RaceCheck()
	var es [2]*element
	var ss [2]*ristretto.Scalar
	q := vsym.Element("q")
	for i := range es {
		es[i], ss[i] = vsym.Element("p"), vsym.Scalar("s")
	}
	op := vsym.Choose("operation", 12)
	b := q.Bytes()
	txt, _ := q.MarshalText()
	do := func(i int) {
		p, s := es[i], ss[i]
		switch op {
		case 0:
			p.Add(p, q)
		case 1:
			p.Subtract(p, q)
		case 2:
			p.Negate(q)
		case 3:
			p.ScalarMult(s, q)
		case 4:
			p.ScalarBaseMult(s)
		case 5:
			p.VarTimeDoubleScalarBaseMult(s, q, s)
		case 6:
			p.MultiScalarMult([]*ristretto.Scalar{s, s}, []*element{p, q})
		case 7:
			p.VarTimeMultiScalarMult([]*ristretto.Scalar{s, s}, []*element{p, q})
		case 8:
			p.Set(q)
			vsym.Assert(p.Equal(q) == 1, "equal-to-copy")
		case 9:
			p.SetCanonicalBytes(b)
			q.Bytes()
		case 10:
			q.BytesEd25519()
			p.Set(ristretto.NewIdentityElement())
		case 11:
			q.MarshalText()
			p.UnmarshalText(txt)
		}
	}
	done := make(chan int)
	for i := range es {
		i := i
		go func() {
			do(i)
			done <- 1
		}()
	}
	<-done
	<-done
	vsym.Cover("concurrent")
}
