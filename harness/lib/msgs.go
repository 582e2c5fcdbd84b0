package lib

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

// ExponentOf builds a commitment polynomial with the given coefficients, by
// decoding its documented encoding (degree, then the coefficients).
func ExponentOf(cs []*ristretto.Element) *polynomial.Exponent {
	b := ExponentBytes(cs)
	var e polynomial.Exponent
	if err := e.UnmarshalBinary(b); err != nil {
		vsym.Assert(false, "valid-commitments-decode")
	}
	return &e
}

func ExponentBytes(cs []*ristretto.Element) []byte {
	d := len(cs) - 1
	b := []byte{byte(d >> 8), byte(d)}
	for _, c := range cs {
		b = append(b, c.Bytes()...)
	}
	return b
}

// Schnorr builds a proof from its two scalars.
func Schnorr(s, r *ristretto.Scalar) *zk.Schnorr {
	var p zk.Schnorr
	p.S.Set(s)
	p.R.Set(r)
	return &p
}

// AnyMessage is a message of the given type with arbitrary contents.
func AnyMessage(typ int, degree int) *messages.Message {
	from := party.ID(vsym.U16("from"))
	vsym.Assume(from != 0)
	switch typ {
	case 0:
		var cs []*ristretto.Element
		for i := 0; i <= degree; i++ {
			cs = append(cs, vsym.Element("commitment"))
		}
		return messages.NewKeyGen1(from, Schnorr(vsym.Scalar("S"), vsym.Scalar("R")), ExponentOf(cs))
	case 1:
		to := party.ID(vsym.U16("to"))
		vsym.Assume(to != 0)
		return messages.NewKeyGen2(from, to, vsym.Scalar("share"))
	case 2:
		return messages.NewSign1(from, vsym.Element("D"), vsym.Element("E"))
	}
	return messages.NewSign2(from, vsym.Scalar("z"))
}

// Coefficients lists the coefficients of a commitment polynomial (from its
// documented encoding).
func Coefficients(p *polynomial.Exponent) []*ristretto.Element {
	b, err := p.MarshalBinary()
	vsym.Assert(err == nil && len(b) >= 34 && (len(b)-2)%32 == 0, "commitments-marshal")
	var r []*ristretto.Element
	for i := 2; i < len(b); i += 32 {
		var e ristretto.Element
		_, err := e.SetCanonicalBytes(b[i : i+32])
		vsym.Assert(err == nil, "commitments-decode")
		r = append(r, &e)
	}
	return r
}

// Blamed is the party an error names, or 0.
func Blamed(err error) party.ID {
	for err != nil {
		if e, ok := err.(*state.Error); ok {
			if e == nil {
				return 0
			}
			return e.PartyID
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return 0
		}
		err = u.Unwrap()
	}
	return 0
}

// ErrEq reports whether an element is what it should be.
func CopyS(s *ristretto.Scalar) *ristretto.Scalar { return SAdd(s, ristretto.NewScalar()) }
func CopyE(e *ristretto.Element) *ristretto.Element {
	return EAdd(e, ristretto.NewIdentityElement())
}

// Deliver hands a message over the wire to one party and asserts that it is
// taken in.
func Deliver(s *state.State, m *messages.Message) {
	vsym.Assert(s.HandleMessage(Wire(m)) == nil, "message-accepted")
}

// From returns the messages of out sent by id.
func From(out []*messages.Message, id party.ID) []*messages.Message {
	var r []*messages.Message
	for _, m := range out {
		if m.From == id {
			r = append(r, m)
		}
	}
	return r
}
