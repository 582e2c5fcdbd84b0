// Package c18: polynomials in scalars and in the exponent.
package c18

import (
	"bytes"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "degrees 0..6 (quick) or 0..11, 16, and the numbers up to 36 (thorough 70) that the code treats specially and 257, arbitrary coefficients (zero and identity included) and evaluation points, every evaluation algorithm, sums of up to 3 (quick) or 4 polynomials, every pair of degrees"

const Assumptions = "scalars form the prime field of the group order and elements the group over it"

func degree() int {
	return vsym.Choose("degree", 7+5*vsym.Tier())
}

// point is an arbitrary non-zero evaluation point.
func point() *ristretto.Scalar {
	if vsym.Choose("point", 2) == 0 {
		id := party.ID(vsym.U16("x"))
		vsym.Assume(id != 0)
		return lib.IDScalar(id)
	}
	x := vsym.Scalar("x")
	vsym.Assume(!lib.SZero(x))
	return x
}

func points(n int) []*ristretto.Element {
	var cs []*ristretto.Element
	for i := 0; i < n; i++ {
		cs = append(cs, vsym.Element("c"))
	}
	return cs
}

// at is the reference evaluation.
func at(cs []*ristretto.Element, x *ristretto.Scalar) *ristretto.Element {
	r, p := ristretto.NewIdentityElement(), lib.One()
	for _, c := range cs {
		r = lib.EAdd(r, lib.EMul(p, c))
		p = lib.SMul(p, x)
	}
	return r
}

// secret is a polynomial with arbitrary coefficients.
func secret(d int, constant *ristretto.Scalar) *polynomial.Polynomial {
	if vsym.Choose("coefficients", 2) == 0 {
		var cs []*ristretto.Scalar
		for i := 0; i < d; i++ {
			cs = append(cs, vsym.Scalar("a"))
		}
		vsym.NextRand(cs...)
	}
	f := polynomial.NewPolynomial(party.Size(d), constant)
	vsym.NoMoreRand()
	return f
}

// CheckCommute: committing and evaluating commute.
func CheckCommute() {
	d := degree()
	a := vsym.Scalar("constant")
	f := secret(d, a)
	e := polynomial.NewPolynomialExponent(f)
	vsym.Assert(f.Degree() == party.Size(d) && e.Degree() == party.Size(d) && f.Size() == d+1, "degree")
	vsym.Assert(lib.SEq(f.Constant(), a) && lib.EEq(e.Constant(), lib.Base(a)), "constant")
	x := point()
	v := lib.Base(f.Evaluate(x))
	for alg := 0; alg < polynomial.VerifAlgorithms; alg++ {
		vsym.Assert(lib.EEq(polynomial.VerifEvaluate(alg, e, x), v), "commit-and-evaluate-commute")
	}
	// the values are those of one polynomial of this degree
	var ids []party.ID
	var ys []*ristretto.Scalar
	for i := 0; i <= d; i++ {
		id := party.ID(256*i + 255)
		ids = append(ids, id)
		ys = append(ys, f.Evaluate(id.Scalar()))
	}
	vsym.Assert(lib.SEq(lib.Interpolate(ids, ys, ristretto.NewScalar()), a), "values-determine-constant")
	vsym.Assert(lib.SEq(lib.Interpolate(ids, ys, x), f.Evaluate(x)), "values-determine-polynomial")
	vsym.Assert(lib.SEq(f.Constant(), a) && lib.EEq(e.Constant(), lib.Base(a)), "evaluation-changes-nothing")
	f.Constant().Add(f.Constant(), lib.One())
	k := f.Constant()
	k.Add(k, lib.One())
	vsym.Assert(lib.SEq(f.Constant(), a), "constant-is-a-copy")
	f.Reset()
	vsym.Assert(lib.SZero(f.Constant()) && lib.SZero(f.Evaluate(x)), "reset-is-zero")
	vsym.Assert(lib.EEq(e.Evaluate(x), v), "commitments-independent-of-polynomial")
	vsym.Cover("commute")
}

// CheckEvaluate: evaluation of arbitrary commitments.
func CheckEvaluate() {
	cs := points(degree() + 1)
	e := lib.ExponentOf(cs)
	x := point()
	keep := lib.CopyS(x)
	want := at(cs, x)
	for alg := 0; alg < polynomial.VerifAlgorithms; alg++ {
		vsym.Assert(lib.EEq(polynomial.VerifEvaluate(alg, e, x), want), "evaluation-right")
	}
	vsym.Assert(lib.SEq(x, keep), "point-untouched")
	same(e, cs, "evaluation-changes-nothing")
	ids := lib.SymIDs(vsym.Choose("n", 3))
	m := e.EvaluateMulti(ids)
	vsym.Assert(len(m) == len(ids), "all-evaluated")
	for _, id := range ids {
		vsym.Assert(m[id] != nil && lib.EEq(m[id], at(cs, lib.IDScalar(id))), "evaluation-right")
	}
	vsym.Cover("evaluated")
}

// same checks the coefficients, read from the encoding.
func same(e *polynomial.Exponent, cs []*ristretto.Element, label string) {
	b, err := e.MarshalBinary()
	vsym.Assert(err == nil, "encodes")
	vsym.Assert(bytes.Equal(b, lib.ExponentBytes(cs)), label)
	vsym.Assert(e.Degree() == party.Size(len(cs)-1) && e.Size() == len(b), "degree")
	vsym.Assert(lib.EEq(e.Constant(), cs[0]), "constant")
}

// CheckZero: evaluating at zero is refused.
func CheckZero() {
	d := degree()
	x := vsym.Scalar("x")
	f := polynomial.NewPolynomial(party.Size(d), vsym.Scalar("constant"))
	e := lib.ExponentOf(points(d + 1))
	zero := lib.SZero(x)
	vsym.Assert(vsym.Panics(func() { f.Evaluate(x) }) == zero, "zero-refused")
	for alg := 0; alg < polynomial.VerifAlgorithms; alg++ {
		vsym.Assert(vsym.Panics(func() { polynomial.VerifEvaluate(alg, e, x) }) == zero, "zero-refused")
	}
	if zero {
		vsym.Cover("zero")
	} else {
		vsym.Cover("not-zero")
	}
}

// CheckSum: sums.
func CheckSum() {
	d := degree()
	var ps []*polynomial.Exponent
	var all [][]*ristretto.Element
	total := make([]*ristretto.Element, d+1)
	for i := range total {
		total[i] = ristretto.NewIdentityElement()
	}
	n := 1 + vsym.Choose("n", 3+vsym.Tier())
	for j := 0; j < n; j++ {
		cs := points(d + 1)
		all = append(all, cs)
		ps = append(ps, lib.ExponentOf(cs))
		for i := range total {
			total[i] = lib.EAdd(total[i], cs[i])
		}
	}
	s, err := polynomial.Sum(ps)
	vsym.Assert(err == nil, "sum-defined")
	same(s, total, "sum-right")
	for j, p := range ps {
		same(p, all[j], "summands-untouched")
	}
	s.Reset()
	for j, p := range ps {
		same(p, all[j], "sum-independent-of-summands")
	}
	zero := make([]*ristretto.Element, d+1)
	for i := range zero {
		zero[i] = ristretto.NewIdentityElement()
	}
	same(s, zero, "reset-is-zero")
	vsym.Cover("sum")
}

// CheckAdd: addition, also of different degrees.
func CheckAdd() {
	m := 4 + vsym.Tier()
	a, b := points(1+vsym.Choose("a", m)), points(1+vsym.Choose("b", m))
	p, q := lib.ExponentOf(a), lib.ExponentOf(b)
	err := p.Add(q)
	same(q, b, "summands-untouched")
	if len(a) != len(b) {
		vsym.Assert(err != nil, "different-degrees-refused")
		same(p, a, "refused-without-effect")
		s, err := polynomial.Sum([]*polynomial.Exponent{p, q})
		vsym.Assert(err != nil && s == nil, "different-degrees-refused")
		same(p, a, "refused-without-effect")
		same(q, b, "refused-without-effect")
		vsym.Cover("different-degrees")
		return
	}
	vsym.Assert(err == nil, "sum-defined")
	sum := make([]*ristretto.Element, len(a))
	for i := range sum {
		sum[i] = lib.EAdd(a[i], b[i])
	}
	same(p, sum, "sum-right")
	vsym.Assert(p.Add(p) == nil, "sum-defined")
	for i := range sum {
		sum[i] = lib.EAdd(sum[i], sum[i])
	}
	same(p, sum, "doubling-right")
	same(q, b, "summands-untouched")
	vsym.Cover("same-degrees")
}

// CheckCopy: copies share nothing.
func CheckCopy() {
	cs := points(degree() + 1)
	p := lib.ExponentOf(cs)
	q := p.Copy()
	same(q, cs, "copy-right")
	switch vsym.Choose("change", 3) {
	case 0:
		q.Reset()
	case 1:
		vsym.Assert(q.Add(q) == nil, "sum-defined")
	case 2:
		c := q.Constant()
		c.Add(c, ristretto.NewGeneratorElement())
		same(q, cs, "constant-is-a-copy")
		q.Reset()
	}
	same(p, cs, "copy-shares-nothing")
	q = p.Copy()
	p.Reset()
	same(q, cs, "copy-shares-nothing")
	vsym.Cover("copied")
}

// CheckEncoding: encodings and comparison.
func CheckEncoding() {
	m := 3 + vsym.Tier()
	a, b := points(1+vsym.Choose("a", m)), points(1+vsym.Choose("b", m))
	p, q := lib.ExponentOf(a), lib.ExponentOf(b)
	equal := len(a) == len(b)
	for i := range a {
		equal = equal && lib.EEq(a[i], b[i])
	}
	vsym.Assert(p.Equal(q) == equal && q.Equal(p) == equal, "comparison")
	vsym.Assert(!p.Equal(nil) && !p.Equal(a), "comparison")
	ba, err := p.MarshalBinary()
	vsym.Assert(err == nil, "encodes")
	pre := []byte{1, 2, 3}
	bb, err := q.BytesAppend(pre)
	vsym.Assert(err == nil && bytes.Equal(bb[:3], []byte{1, 2, 3}), "encodes")
	vsym.Assert(bytes.Equal(ba, bb[3:]) == equal, "encodings-distinct")
	var r polynomial.Exponent
	if vsym.Choose("target", 2) == 1 {
		r = *lib.ExponentOf(points(2))
	}
	vsym.Assert(r.UnmarshalBinary(ba) == nil, "decodes")
	same(&r, a, "round-trip")
	vsym.Assert(r.Equal(p), "round-trip")
	if equal {
		vsym.Cover("equal")
	} else {
		vsym.Cover("different")
	}
}

// CheckMany: higher degrees.
func CheckMany() {
	vsym.Deep()
	d := vsym.Count("degree", lib.Limit(), 5, 16, 257)
	cs, ds := points(d+1), points(d+1)
	e, o := lib.ExponentOf(cs), lib.ExponentOf(ds)
	x := lib.IDScalar(party.ID(1 + vsym.Choose("x", 2)*299))
	want := at(cs, x)
	for alg := 0; alg < polynomial.VerifAlgorithms; alg++ {
		vsym.Assert(lib.EEq(polynomial.VerifEvaluate(alg, e, x), want), "evaluation-right")
	}
	a := vsym.Scalar("constant")
	f := polynomial.NewPolynomial(party.Size(d), a)
	vsym.Assert(lib.EEq(polynomial.NewPolynomialExponent(f).Evaluate(x), lib.Base(f.Evaluate(x))), "commit-and-evaluate-commute")
	sum, err := polynomial.Sum([]*polynomial.Exponent{e, o})
	vsym.Assert(err == nil, "sum-accepted")
	for i, c := range lib.Coefficients(sum) {
		vsym.Assert(lib.EEq(c, lib.EAdd(cs[i], ds[i])), "sum-right")
	}
	b, err := e.MarshalBinary()
	vsym.Assert(err == nil && len(b) == 2+32*(d+1), "encoding-length")
	var back polynomial.Exponent
	vsym.Assert(back.UnmarshalBinary(b) == nil, "own-encoding-decodes")
	same(&back, cs, "encoding-survives")
	vsym.Cover("many")
}

// CheckReuse: polynomials that were used before, and points that change.
func CheckReuse() {
	d := vsym.Choose("degree", 4+2*vsym.Tier())
	cs, ds := points(d+1), points(d+1)
	p, q := lib.ExponentOf(cs), lib.ExponentOf(ds)
	x := point()
	y := vsym.Scalar("y")
	vsym.Assume(!lib.SZero(y))
	for alg := 0; alg < polynomial.VerifAlgorithms; alg++ {
		z := lib.CopyS(x)
		vsym.Assert(lib.EEq(polynomial.VerifEvaluate(alg, p, z), at(cs, x)), "evaluation-right")
		z.Set(y) // the same object, another value
		vsym.Assert(lib.EEq(polynomial.VerifEvaluate(alg, p, z), at(cs, y)), "evaluation-right-at-changed-point")
		vsym.Assert(lib.EEq(polynomial.VerifEvaluate(alg, q, z), at(ds, y)), "evaluation-right-of-other")
		r := polynomial.VerifEvaluate(alg, p, x)
		w := polynomial.VerifEvaluate(alg, q, y)
		vsym.Assert(lib.EEq(r, at(cs, x)) && lib.EEq(w, at(ds, y)), "earlier-result-kept")
		r.Add(r, w)
		vsym.Assert(lib.EEq(polynomial.VerifEvaluate(alg, p, x), at(cs, x)), "evaluation-right-after-changing-result")
		vsym.Assert(lib.SEq(z, y), "point-untouched")
	}
	f := polynomial.NewPolynomial(party.Size(d), vsym.Scalar("constant"))
	e := polynomial.NewPolynomialExponent(f)
	z := lib.CopyS(x)
	v := f.Evaluate(z)
	vsym.Assert(lib.EEq(lib.Base(v), at(lib.Coefficients(e), x)), "commit-and-evaluate-commute")
	z.Set(y)
	u := f.Evaluate(z)
	vsym.Assert(lib.EEq(lib.Base(u), at(lib.Coefficients(e), y)), "commit-and-evaluate-commute")
	vsym.Assert(lib.EEq(lib.Base(v), at(lib.Coefficients(e), x)), "earlier-result-kept")
	// changed polynomials
	zero := make([]*ristretto.Element, d+1)
	sum := make([]*ristretto.Element, d+1)
	for i := range zero {
		zero[i] = ristretto.NewIdentityElement()
		sum[i] = lib.EAdd(ds[i], ds[i])
	}
	alg := vsym.Choose("algorithm", polynomial.VerifAlgorithms)
	vsym.Assert(p.Add(q) == nil, "sum-defined")
	vsym.Assert(lib.EEq(polynomial.VerifEvaluate(alg, p, x), lib.EAdd(at(cs, x), at(ds, x))), "evaluation-right-after-change")
	p.Reset()
	same(p, zero, "reset-is-zero")
	vsym.Assert(lib.EZero(polynomial.VerifEvaluate(alg, p, x)), "evaluation-right-after-change")
	vsym.Assert(p.Add(q) == nil, "sum-defined")
	same(p, ds, "sum-right-after-reset")
	same(q, ds, "summands-untouched")
	vsym.Assert(p.Add(q) == nil, "sum-defined")
	same(p, sum, "sum-right-after-reset")
	q.Reset()
	same(q, zero, "reset-is-zero")
	same(p, sum, "sum-independent-of-summands")
	b, err := p.MarshalBinary()
	vsym.Assert(err == nil && q.UnmarshalBinary(b) == nil, "decodes")
	same(q, sum, "round-trip-into-used")
	p.Reset()
	for i := range b {
		b[i] = 0xff
	}
	same(q, sum, "decoded-independent")
	s, err := polynomial.Sum([]*polynomial.Exponent{p, q})
	vsym.Assert(err == nil, "sum-defined")
	same(s, sum, "sum-right-after-reset")
	vsym.Assert(s.Add(q) == nil && lib.EEq(polynomial.VerifEvaluate(alg, s, x), lib.EAdd(at(sum, x), at(sum, x))), "evaluation-right-after-change")
	same(q, sum, "summands-untouched")
	vsym.Cover("reused")
}
