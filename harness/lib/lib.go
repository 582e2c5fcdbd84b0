// Package lib holds what several harnesses share: drivers that run the real
// protocol code, and small independent reference computations.
package lib

import (
	"bytes"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

// Message is a byte string of length n, arbitrary if it is short; long ones
// are arbitrary at the beginning, in the middle and at the end.
func Message(name string, n int) []byte {
	if n <= 256 {
		return vsym.Bytes(name, n)
	}
	b := make([]byte, n)
	copy(b, vsym.Bytes(name, 8))
	copy(b[n/2:], vsym.Bytes(name, 8))
	copy(b[n-8:], vsym.Bytes(name, 8))
	return b
}

// IDSets are concrete party lists: dense, sparse, and with IDs around byte
// and word boundaries.
var IDSets = []party.IDSlice{
	{1, 2},
	{255, 256},
	{1, 65535},
	{1, 2, 3},
	{255, 256, 257},
	{2, 258, 65534},
	{1, 2, 3, 4},
	{7, 256, 511, 65535},
	{1, 2, 3, 4, 5},
	{3, 128, 255, 32768, 65535},
	{1, 2, 3, 4, 5, 6, 7},
	{1, 2, 3, 4, 5, 6, 7, 8, 9, 10},
}

// Many is a list of n IDs, dense in runs of seven.
func Many(n int) party.IDSlice {
	ids := make(party.IDSlice, n)
	for i := range ids {
		ids[i] = party.ID(i + 1 + i/7*249)
	}
	return ids
}

// Limit is the largest number of parties considered for numbers of parties
// that the code treats specially.
func Limit() int { return 36 + 34*vsym.Tier() }

// LimitOne is the same where only one party runs.
func LimitOne() int { return 140 }

// SymIDs returns n arbitrary valid, increasing IDs.
func SymIDs(n int) party.IDSlice {
	ids := make(party.IDSlice, n)
	for i := range ids {
		ids[i] = party.ID(vsym.U16("id"))
		if i == 0 {
			vsym.Assume(ids[0] != 0)
		} else {
			vsym.Assume(ids[i] > ids[i-1])
		}
	}
	return ids
}

// KG is one keygen participant.
type KG struct {
	ID  party.ID
	St  *state.State
	Out *keygen.Output
}

// SG is one signer.
type SG struct {
	ID  party.ID
	St  *state.State
	Out *sign.Output
}

func NewKeygen(ids party.IDSlice, t party.Size, timeout time.Duration) []*KG {
	var r []*KG
	for _, id := range ids {
		s, o, err := frost.NewKeygenState(id, ids.Copy(), t, timeout)
		vsym.Assert(err == nil, "keygen-setup-accepted")
		r = append(r, &KG{id, s, o})
	}
	return r
}

func NewSign(ids party.IDSlice, secrets map[party.ID]*eddsa.SecretShare, pub *eddsa.Public, msg []byte, timeout time.Duration) []*SG {
	var r []*SG
	for _, id := range ids {
		r = append(r, NewSigner(ids, secrets[id], pub, msg, timeout))
	}
	return r
}

// NewSigner is one signer.
func NewSigner(ids party.IDSlice, secret *eddsa.SecretShare, pub *eddsa.Public, msg []byte, timeout time.Duration) *SG {
	s, o, err := frost.NewSignState(ids.Copy(), secret, pub, msg, timeout)
	vsym.Assert(err == nil, "sign-setup-accepted")
	return &SG{secret.ID, s, o}
}

// Wire sends a message over the wire: marshal and unmarshal.
func Wire(m *messages.Message) *messages.Message {
	b, err := m.MarshalBinary()
	vsym.Assert(err == nil, "honest-message-marshals")
	var r messages.Message
	err = r.UnmarshalBinary(b)
	vsym.Assert(err == nil, "honest-message-unmarshals")
	return &r
}

// Round delivers every message of out to every state in order and processes.
func Round(sts []*state.State, in []*messages.Message) []*messages.Message {
	for _, m := range in {
		for _, s := range sts {
			err := s.HandleMessage(Wire(m))
			vsym.Assert(err == nil, "honest-message-accepted")
		}
	}
	var out []*messages.Message
	for _, s := range sts {
		out = append(out, s.ProcessAll()...)
	}
	return out
}

func KGStates(k []*KG) []*state.State {
	var r []*state.State
	for _, x := range k {
		r = append(r, x.St)
	}
	return r
}

func SGStates(k []*SG) []*state.State {
	var r []*state.State
	for _, x := range k {
		r = append(r, x.St)
	}
	return r
}

// RunKeygen runs an honest key generation to the end. It returns the
// participants and all first-round messages.
func RunKeygen(ids party.IDSlice, t party.Size) ([]*KG, []*messages.Message) {
	k := NewKeygen(ids, t, 0)
	sts := KGStates(k)
	m1 := Round(sts, nil)
	m2 := Round(sts, m1)
	m3 := Round(sts, m2)
	vsym.Assert(len(m3) == 0, "keygen-no-message-after-last-round")
	return k, m1
}

// Secrets collects the secret shares.
func Secrets(k []*KG) map[party.ID]*eddsa.SecretShare {
	r := map[party.ID]*eddsa.SecretShare{}
	for _, x := range k {
		r[x.ID] = x.Out.SecretKey
	}
	return r
}

// One is the scalar 1.
func One() *ristretto.Scalar { return Small(1) }

// Small is a small scalar, built from its little-endian encoding.
func Small(x uint64) *ristretto.Scalar {
	b := make([]byte, 32)
	for i := 0; i < 8; i++ {
		b[i] = byte(x >> (8 * uint(i)))
	}
	s := ristretto.NewScalar()
	if _, err := s.SetCanonicalBytes(b); err != nil {
		panic("lib: small scalar")
	}
	return s
}

// IDScalar is the scalar of an ID, independently of party.ID.Scalar.
func IDScalar(id party.ID) *ristretto.Scalar {
	b := make([]byte, 32)
	b[0] = byte(id)
	b[1] = byte(id >> 8)
	s := ristretto.NewScalar()
	if _, err := s.SetCanonicalBytes(b); err != nil {
		panic("lib: id scalar")
	}
	return s
}

func SAdd(a, b *ristretto.Scalar) *ristretto.Scalar { return ristretto.NewScalar().Add(a, b) }
func SSub(a, b *ristretto.Scalar) *ristretto.Scalar { return ristretto.NewScalar().Subtract(a, b) }
func SMul(a, b *ristretto.Scalar) *ristretto.Scalar { return ristretto.NewScalar().Multiply(a, b) }
func SInv(a *ristretto.Scalar) *ristretto.Scalar    { return ristretto.NewScalar().Invert(a) }
func SEq(a, b *ristretto.Scalar) bool               { return a.Equal(b) == 1 }
func SZero(a *ristretto.Scalar) bool                { return a.Equal(ristretto.NewScalar()) == 1 }

func EAdd(a, b *ristretto.Element) *ristretto.Element {
	return ristretto.NewIdentityElement().Add(a, b)
}
func ESub(a, b *ristretto.Element) *ristretto.Element {
	return ristretto.NewIdentityElement().Subtract(a, b)
}
func EMul(s *ristretto.Scalar, a *ristretto.Element) *ristretto.Element {
	return ristretto.NewIdentityElement().ScalarMult(s, a)
}
func Base(s *ristretto.Scalar) *ristretto.Element {
	return ristretto.NewIdentityElement().ScalarBaseMult(s)
}
func EEq(a, b *ristretto.Element) bool { return a.Equal(b) == 1 }
func EZero(a *ristretto.Element) bool  { return a.Equal(ristretto.NewIdentityElement()) == 1 }

// RefLagrange is the coefficient of point j when interpolating at x from the
// points xs.
func RefLagrange(xs []*ristretto.Scalar, j int, x *ristretto.Scalar) *ristretto.Scalar {
	num, den := One(), One()
	for m := range xs {
		if m == j {
			continue
		}
		num = SMul(num, SSub(x, xs[m]))
		den = SMul(den, SSub(xs[j], xs[m]))
	}
	return SMul(num, SInv(den))
}

func IDScalars(ids []party.ID) []*ristretto.Scalar {
	var r []*ristretto.Scalar
	for _, id := range ids {
		r = append(r, IDScalar(id))
	}
	return r
}

// Interpolate reconstructs the value at x from shares.
func Interpolate(ids []party.ID, ys []*ristretto.Scalar, x *ristretto.Scalar) *ristretto.Scalar {
	xs := IDScalars(ids)
	r := ristretto.NewScalar()
	for j := range xs {
		r = SAdd(r, SMul(RefLagrange(xs, j, x), ys[j]))
	}
	return r
}

// Subset returns the subset selected by the bits of mask.
func Subset(ids party.IDSlice, mask int) party.IDSlice {
	var r party.IDSlice
	for i, id := range ids {
		if mask>>uint(i)&1 == 1 {
			r = append(r, id)
		}
	}
	return r
}

func Bits(m int) int {
	n := 0
	for m != 0 {
		n += m & 1
		m >>= 1
	}
	return n
}

func SameIDs(a, b party.IDSlice) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// BytesEq compares byte strings.
func BytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

// TrySign sets up a signer that may be refused.
func TrySign(ids party.IDSlice, secret *eddsa.SecretShare, pub *eddsa.Public, msg []byte) (*state.State, *sign.Output, bool) {
	s, o, err := frost.NewSignState(ids.Copy(), secret, pub, msg, 0)
	return s, o, err == nil
}

// Loose is Round without assertions.
func Loose(sts []*state.State, in []*messages.Message) []*messages.Message {
	for _, m := range in {
		for _, s := range sts {
			_ = s.HandleMessage(Wire(m))
		}
	}
	var out []*messages.Message
	for _, s := range sts {
		out = append(out, s.ProcessAll()...)
	}
	return out
}
