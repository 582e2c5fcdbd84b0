package vsym

import (
	"math/big"
	"unsafe"

	"filippo.io/edwards25519"
	"filippo.io/edwards25519/field"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// The field level: natively, a violation found over a small field is looked
// for over the real one, in many runs with exceptional and random values.

type assumed struct{}

// Run runs a check, at the field level many times.
func Run(f func()) {
	if rf.Field == 0 {
		f()
		return
	}
	for i := 0; i < rf.Field; i++ {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(assumed); !ok {
						panic(e)
					}
				}
			}()
			count = map[string]int{}
			points = nil
			f()
		}()
	}
}

var (
	points []*edwards25519.Point // of this run
	prime  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
)

func feOf(k *big.Int) *field.Element {
	b := new(big.Int).Mod(k, prime).FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	e, err := new(field.Element).SetBytes(b)
	if err != nil {
		panic(err)
	}
	return e
}

func bigOf(e *field.Element) *big.Int {
	b := e.Bytes()
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return new(big.Int).SetBytes(b)
}

func root(x *big.Int, odd uint) *big.Int {
	r := new(big.Int).ModSqrt(new(big.Int).Mod(x, prime), prime)
	if r != nil && r.Bit(0) != odd {
		r.Sub(prime, r)
	}
	return r
}

func constD() *big.Int {
	d := new(big.Int).ModInverse(big.NewInt(121666), prime)
	return d.Mul(d, big.NewInt(-121665)).Mod(d, prime)
}

// FieldI, FieldD, FieldS are the even root of -1, the curve's d, and the odd
// root of -d-1.
func FieldI() *field.Element { return feOf(root(big.NewInt(-1), 0)) }
func FieldD() *field.Element { return feOf(constD()) }
func FieldS() *field.Element {
	x := new(big.Int).Neg(constD())
	return feOf(root(x.Sub(x, big.NewInt(1)), 1))
}

// FieldP is the characteristic, in 32 little-endian bytes.
func FieldP() []byte {
	b := prime.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

func coin(n int) bool { return rng.Intn(n) == 0 }

func special() *big.Int {
	d := constD()
	i := root(big.NewInt(-1), 0)
	inv := new(big.Int).ModInverse(d, prime)
	l := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), i, d, inv,
		new(big.Int).Sub(d, big.NewInt(1)), new(big.Int).Add(d, big.NewInt(1)),
		new(big.Int).Rsh(prime, 1), big.NewInt(int64(rng.Intn(64)))}
	x := l[rng.Intn(len(l))]
	if coin(2) {
		x = new(big.Int).Sub(prime, x)
	}
	if coin(2) {
		y := l[rng.Intn(len(l))]
		x = new(big.Int).Mul(x, y)
		x.Mod(x, prime)
	}
	if coin(2) {
		if r := root(x, uint(rng.Intn(2))); r != nil {
			x = r
		}
	}
	return x
}

func randomFe() *big.Int {
	return new(big.Int).Rand(rng, prime)
}

// CurvePoint is an arbitrary group element in an arbitrary representation.
func CurvePoint(name string) *ristretto.Element {
	var q *edwards25519.Point
	switch {
	case coin(4):
		q = edwards25519.NewIdentityPoint()
	case len(points) > 0 && coin(2):
		q = new(edwards25519.Point).Set(points[rng.Intn(len(points))])
		if coin(4) {
			q.Negate(q)
		}
	default:
		b := make([]byte, 64)
		rng.Read(b)
		if coin(4) {
			b = make([]byte, 64)
			b[0] = byte(rng.Intn(8))
		}
		s, err := edwards25519.NewScalar().SetUniformBytes(b)
		if err != nil {
			panic(err)
		}
		q = new(edwards25519.Point).ScalarBaseMult(s)
	}
	for k := 2 * rng.Intn(4); k > 0; k-- {
		q.Add(q, t8)
	}
	points = append(points, q)
	X, Y, Z, T := q.ExtendedCoordinates()
	z := feOf(randomFe())
	switch rng.Intn(4) {
	case 0:
		z.Invert(Z)
	case 1:
		z.One()
	case 2:
		z.Invert(Z)
		z.Negate(z)
	}
	for _, c := range []*field.Element{X, Y, Z, T} {
		c.Multiply(c, z)
	}
	if _, err := q.SetExtendedCoordinates(X, Y, Z, T); err != nil {
		panic(err)
	}
	e := ristretto.NewIdentityElement()
	*(*edwards25519.Point)(unsafe.Pointer(e)) = *q
	return e
}

// Coordinates are the internal coordinates of an element.
func Coordinates(e *ristretto.Element) (X, Y, Z, T *field.Element) {
	return (*edwards25519.Point)(unsafe.Pointer(e)).ExtendedCoordinates()
}

// Point is a copy of the curve point that represents an element.
func Point(e *ristretto.Element) *edwards25519.Point {
	return new(edwards25519.Point).Set((*edwards25519.Point)(unsafe.Pointer(e)))
}

// ElementOf is the element that a curve point represents.
func ElementOf(p *edwards25519.Point) *ristretto.Element {
	e := new(ristretto.Element)
	*(*edwards25519.Point)(unsafe.Pointer(e)) = *p
	return e
}

// FieldBytes is an arbitrary string of 32 bytes.
func FieldBytes(name string) []byte {
	var k *big.Int
	switch {
	case coin(3):
		k = special()
	case coin(2):
		e := CurvePoint(name)
		b := e.Bytes()
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
		k = new(big.Int).SetBytes(b)
		if coin(3) {
			k.Sub(prime, k)
		}
	default:
		k = randomFe()
	}
	if coin(3) {
		k = new(big.Int).Add(k, prime)
		if k.BitLen() > 255 {
			k.Sub(k, prime)
		}
	}
	b := k.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	if coin(6) {
		b[31] |= 128
	}
	return b
}
