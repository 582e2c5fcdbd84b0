// Package c20: encoding, decoding and equality of group elements.
package c20

import (
	"bytes"

	"filippo.io/edwards25519/field"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "the field and curve are replaced by small ones of the same shape (field of 29 elements, thorough: 37, 53, 61 and 101 elements; -x^2+y^2=1+dx^2y^2, cofactor 8); all points of the even subgroup, in all extended coordinates, all 32-byte strings, all pairs of hash inputs"

const Assumptions = "filippo.io/edwards25519/field and the point additions of filippo.io/edwards25519 do field and curve arithmetic correctly; what the encoding formulas do over the real field they do over small fields with the same properties (p = 5 mod 8, d not a square, -1-d a square, cofactor 8)"

type el = field.Element

func curve() {
	if vsym.Tier() == 0 {
		vsym.FieldMode(0)
		return
	}
	vsym.FieldMode(1 + vsym.Choose("curve", 4))
}

func mul(a, b *el) *el { return new(el).Multiply(a, b) }
func add(a, b *el) *el { return new(el).Add(a, b) }
func sub(a, b *el) *el { return new(el).Subtract(a, b) }
func num(k int) *el {
	r := new(el)
	one := new(el).One()
	for ; k > 0; k-- {
		r.Add(r, one)
	}
	return r
}

// same: do the elements differ by a point of order 1, 2 or 4?
func same(p, q *ristretto.Element) int {
	x1, y1, z1, _ := vsym.Coordinates(p)
	x2, y2, z2, _ := vsym.Coordinates(q)
	i := vsym.FieldI()
	neg := func(a *el) *el { return new(el).Negate(a) }
	r := 0
	for _, t := range [][2]*el{{x1, y1}, {neg(x1), neg(y1)}, {mul(i, y1), mul(i, x1)}, {neg(mul(i, y1)), neg(mul(i, x1))}} {
		r |= mul(t[0], z2).Equal(mul(x2, z1)) & mul(t[1], z2).Equal(mul(y2, z1))
	}
	return r
}

// proper: is e a point of the even subgroup in consistent coordinates?
func proper(e *ristretto.Element) int {
	x, y, z, t := vsym.Coordinates(e)
	xx, yy, zz, tt := mul(x, x), mul(y, y), mul(z, z), mul(t, t)
	on := sub(yy, xx).Equal(add(zz, mul(vsym.FieldD(), tt))) & mul(x, y).Equal(mul(z, t)) & (1 - z.Equal(new(el)))
	_, even := new(el).SqrtRatio(add(z, y), sub(z, y))
	return on & (even | y.Equal(z) | y.Equal(new(el).Negate(z)))
}

func unchanged(e *ristretto.Element, x, y, z, t *el) int {
	x2, y2, z2, t2 := vsym.Coordinates(e)
	return x.Equal(x2) & y.Equal(y2) & z.Equal(z2) & t.Equal(t2)
}

// CheckEqual: equality is equality up to torsion.
func CheckEqual() {
	curve()
	p, q := vsym.CurvePoint("p"), vsym.CurvePoint("q")
	x, y, z, t := vsym.Coordinates(p)
	s := same(p, q)
	r := p.Equal(q)
	vsym.Assert(r == s, "equal-exactly-up-to-torsion")
	vsym.Assert(unchanged(p, x, y, z, t) == 1, "operand-unchanged")
	vsym.Cover("equal")
}

// CheckEncode: equal elements and only these have the same encoding.
func CheckEncode() {
	curve()
	p, q := vsym.CurvePoint("p"), vsym.CurvePoint("q")
	x, y, z, t := vsym.Coordinates(p)
	s := same(p, q)
	a, b := p.Bytes(), q.Bytes()
	vsym.Assert(len(a) == 32, "encoding-is-32-bytes")
	vsym.Assert(bytes.Equal(a, b) == (s == 1), "same-encoding-exactly-if-equal")
	vsym.Assert(unchanged(p, x, y, z, t) == 1, "operand-unchanged")
	vsym.Cover("encode")
}

// CheckRoundTrip: an encoding decodes to an equal element.
func CheckRoundTrip() {
	curve()
	p := vsym.CurvePoint("p")
	b := p.Bytes()
	e := ristretto.NewGeneratorElement()
	r, err := e.SetCanonicalBytes(b)
	vsym.Assert(err == nil && r == e, "encoding-decodes")
	vsym.Assert(same(p, e) == 1, "decodes-to-equal-element")
	vsym.Assert(proper(e) == 1, "decoded-element-proper")
	vsym.Cover("round trip")
}

// CheckDecode: only canonical encodings decode.
func CheckDecode() {
	curve()
	b := vsym.FieldBytes("b")
	in := append([]byte{}, b...)
	e := ristretto.NewGeneratorElement()
	x, y, z, t := vsym.Coordinates(e)
	r, err := e.SetCanonicalBytes(b)
	vsym.Assert(bytes.Equal(in, b), "input-unchanged")
	if err != nil {
		vsym.Assert(r == nil && unchanged(e, x, y, z, t) == 1, "receiver-unchanged-on-error")
		vsym.Cover("refused")
		return
	}
	vsym.Assert(r == e && proper(e) == 1, "decoded-element-proper")
	vsym.Assert(bytes.Equal(e.Bytes(), b), "only-canonical-encodings-decode")
	vsym.Cover("decoded")
}

// CheckLength: strings of other lengths do not decode.
func CheckLength() {
	curve()
	n := vsym.Choose("n", 3)
	b := vsym.FieldBytes("b")
	switch n {
	case 0:
		b = b[:31]
	case 1:
		b = append(b, 0)
	default:
		b = nil
	}
	e := ristretto.NewGeneratorElement()
	x, y, z, t := vsym.Coordinates(e)
	r, err := e.SetCanonicalBytes(b)
	vsym.Assert(r == nil && err != nil && unchanged(e, x, y, z, t) == 1, "wrong-length-refused")
	u := append(vsym.FieldBytes("u"), b...)
	if len(u) != 64 {
		r, err = e.SetUniformBytes(u)
		vsym.Assert(r == nil && err != nil && unchanged(e, x, y, z, t) == 1, "wrong-length-refused")
	}
	vsym.Cover("length")
}

// CheckConstants: the two built-in elements.
func CheckConstants() {
	curve()
	id, g := ristretto.NewIdentityElement(), ristretto.NewGeneratorElement()
	x, y, z, _ := vsym.Coordinates(id)
	vsym.Assert(x.Equal(new(el)) == 1 && y.Equal(z) == 1, "identity")
	vsym.Assert(proper(g) == 1 && g.Equal(id) == 0, "generator")
	vsym.Assert(bytes.Equal(id.Bytes(), make([]byte, 32)), "identity-encoding")
	p := vsym.CurvePoint("p")
	var d ristretto.Element
	d.Subtract(p, p)
	vsym.Assert(d.Equal(id) == 1, "difference-with-itself")
	d.Negate(p).Add(&d, p)
	vsym.Assert(d.Equal(id) == 1, "sum-with-negative")
	d.Set(p)
	vsym.Assert(d.Equal(p) == 1 && same(&d, p) == 1, "copy")
	vsym.Cover("constants")
}

// elligator is MAP of RFC 9496, section 4.3.4.
func elligator(t *el) (x, y, z, tt *el) {
	one := num(1)
	d, i := vsym.FieldD(), vsym.FieldI()
	r := mul(i, mul(t, t))
	u := mul(add(r, one), sub(one, mul(d, d)))
	c := sub(new(el), one)
	v := mul(sub(c, mul(r, d)), add(r, d))
	s, sq := new(el).SqrtRatio(u, v)
	sp := mul(s, t)
	sp.Absolute(sp)
	sp.Negate(sp)
	s = new(el).Select(s, sp, sq)
	c.Select(c, r, sq)
	dm := sub(d, one)
	n := sub(mul(mul(c, sub(r, one)), mul(dm, dm)), v)
	w0 := mul(num(2), mul(s, v))
	w1 := mul(n, vsym.FieldS())
	w2 := sub(one, mul(s, s))
	w3 := add(one, mul(s, s))
	return mul(w0, w3), mul(w2, w1), mul(w1, w3), mul(w0, w2)
}

// sum is the complete addition on -x^2+y^2=1+dx^2y^2.
func sum(x1, y1, z1, t1, x2, y2, z2, t2 *el) (x, y, z *el) {
	a := mul(sub(y1, x1), sub(y2, x2))
	b := mul(add(y1, x1), add(y2, x2))
	c := mul(mul(num(2), vsym.FieldD()), mul(t1, t2))
	d := mul(num(2), mul(z1, z2))
	e, f, g, h := sub(b, a), sub(d, c), add(d, c), add(b, a)
	return mul(e, f), mul(g, h), mul(f, g)
}

// CheckHash: the hash-to-group map is the standard one.
func CheckHash() {
	curve()
	a, b := vsym.FieldBytes("a"), vsym.FieldBytes("b")
	e := ristretto.NewIdentityElement()
	if vsym.Tier() == 0 {
		// the second half is shared with CheckHash2
		b = make([]byte, 32)
	}
	hash(e, a, b)
}

// CheckHash2: as before, for the second half.
func CheckHash2() {
	curve()
	hash(ristretto.NewGeneratorElement(), make([]byte, 32), vsym.FieldBytes("b"))
}

func hash(e *ristretto.Element, a, b []byte) {
	r, err := e.SetUniformBytes(append(append([]byte{}, a...), b...))
	vsym.Assert(err == nil && r == e, "hash-accepted")
	fa, _ := new(el).SetBytes(a)
	fb, _ := new(el).SetBytes(b)
	x1, y1, z1, t1 := elligator(fa)
	x2, y2, z2, t2 := elligator(fb)
	x, y, z := sum(x1, y1, z1, t1, x2, y2, z2, t2)
	ex, ey, ez, _ := vsym.Coordinates(e)
	vsym.Assert(mul(x, ez).Equal(mul(ex, z))&mul(y, ez).Equal(mul(ey, z)) == 1, "hash-to-group-standard")
	vsym.Assert(proper(e) == 1, "hash-proper")
	vsym.Cover("hash")
}

// CheckKept: encodings belong to the caller, and what was encoded or decoded
// before does not matter.
func CheckKept() {
	curve()
	p := vsym.CurvePoint("p")
	q := ristretto.NewGeneratorElement()
	a := p.Bytes()
	ka := append([]byte{}, a...)
	b := q.Bytes()
	kb := append([]byte{}, b...)
	vsym.Assert(bytes.Equal(a, ka), "earlier-encoding-kept")
	e := ristretto.NewIdentityElement()
	_, err := e.SetCanonicalBytes(a)
	vsym.Assert(err == nil, "encoding-decodes")
	for i := range a {
		a[i] = 0
	}
	vsym.Assert(bytes.Equal(b, kb), "earlier-encoding-kept")
	vsym.Assert(bytes.Equal(e.Bytes(), ka), "decoded-independent-of-encoding")
	_, err = e.SetCanonicalBytes(b)
	vsym.Assert(err == nil && bytes.Equal(e.Bytes(), kb), "decodes-into-used-element")
	vsym.Assert(bytes.Equal(p.Bytes(), ka), "encoding-repeatable")
	vsym.Cover("kept")
}
