package c08

import (
	"bytes"
	"crypto/subtle"

	"filippo.io/edwards25519/field"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

type el = field.Element

func mul(a, b *el) *el { return new(el).Multiply(a, b) }

func fieldMode() {
	curve := 0
	if vsym.Tier() > 0 {
		curve = vsym.Choose("curve", 5)
	}
	vsym.FieldMode(curve)
}

// equal is 1 if the strings are equal, without a branch.
func equal(a, b []byte) int { return subtle.ConstantTimeCompare(a, b) }

// coset lists the four representatives (x, y) of an element, over a common z.
func coset(p *ristretto.Element) (xy [4][2]*el, z *el) {
	x, y, z, _ := vsym.Coordinates(p)
	i := vsym.FieldI()
	neg := func(a *el) *el { return new(el).Negate(a) }
	return [4][2]*el{{x, y}, {neg(x), neg(y)}, {mul(i, y), mul(i, x)}, {neg(mul(i, y)), neg(mul(i, x))}}, z
}

// CheckEd25519Bytes: at the level of coordinates, the Ed25519 encoding of an
// element does not depend on its representative, tells elements apart, and is
// the encoding of one of the representatives.
func CheckEd25519Bytes() {
	fieldMode()
	p, q := vsym.CurvePoint("p"), vsym.CurvePoint("q")
	ps, pz := coset(p)
	_, _, qz, _ := vsym.Coordinates(q)
	qx, qy, _, _ := vsym.Coordinates(q)
	same := 0
	for _, r := range ps {
		same |= mul(r[0], qz).Equal(mul(qx, pz)) & mul(r[1], qz).Equal(mul(qy, pz))
	}
	a, b := p.BytesEd25519(), q.BytesEd25519()
	vsym.Assert(len(a) == 32, "ed25519-encoding-is-32-bytes")
	vsym.Assert(bytes.Equal(a, b) == (same == 1), "ed25519-bytes-exactly-if-equal")
	vsym.Cover("coordinates")
}

// CheckEd25519Point: and it is the encoding of one of the representatives.
func CheckEd25519Point() {
	fieldMode()
	p := vsym.CurvePoint("p")
	ps, pz := coset(p)
	a := p.BytesEd25519()
	zi := new(el).Invert(pz)
	is := 0
	for _, r := range ps {
		e := mul(r[1], zi).Bytes()
		e[31] |= byte(mul(r[0], zi).IsNegative() << 7)
		is |= equal(a, e)
	}
	vsym.Assert(is == 1, "ed25519-bytes-encode-a-representative")
	vsym.Assert(bytes.Equal(eddsa.NewPublicKeyFromPoint(p).ToEd25519(), a), "key-encoding")
	one := make([]byte, 32)
	one[0] = 1
	vsym.Assert(bytes.Equal(ristretto.NewIdentityElement().BytesEd25519(), one), "ed25519-identity")
	vsym.Cover("coordinates")
}
