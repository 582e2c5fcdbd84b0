// Package c02: fewer shares than needed reveal nothing.
package c02

import (
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/scalar"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "listed ID sets up to n=4 (quick) or n=7 (thorough), every threshold, every coalition of t parties; dealer sharing for the same sets; polynomials of degree 0..6, evaluated at any scalar; party lists with an ID zero; single parties and dealers with more parties and thresholds: 12, 258 and the numbers up to 140 that the code treats specially"

const Assumptions = "secrecy is decided as linear independence of the values over the fresh randomness; what the public commitments reveal computationally is out of scope"

func sets() party.IDSlice {
	max := 8
	if vsym.Tier() > 0 {
		max = 11
	}
	return lib.IDSets[vsym.Choose("set", max)]
}

// CheckKeygen: what t parties receive privately in key generation is
// independent of every other party's secret and of the group secret.
func CheckKeygen() {
	ids := sets()
	t := 1 + vsym.Choose("t", len(ids)-1)
	k := lib.NewKeygen(ids, party.Size(t), 0)
	sts := lib.KGStates(k)
	m1 := lib.Round(sts, nil)
	m2 := lib.Round(sts, m1)
	vsym.Assert(len(m1) == len(ids), "one-broadcast-per-party")
	vsym.Assert(len(m2) == len(ids)*(len(ids)-1), "one-share-per-pair")
	lib.Round(sts, m2)
	for mask := 1; mask < 1<<uint(len(ids)); mask++ {
		if lib.Bits(mask) != t {
			continue
		}
		coal := lib.Subset(ids, mask)
		var vals []interface{}
		for _, m := range m2 {
			if coal.Contains(m.To) && !coal.Contains(m.From) {
				// the wire copy: the round may have consumed the original
				vals = append(vals, wireShare(m2, m))
			}
		}
		for _, m := range m1 {
			if !coal.Contains(m.From) {
				vals = append(vals, m.KeyGen1.Commitments.Constant())
			}
		}
		vsym.Independent("coalition-of-t-learns-nothing", vals...)
		// the final shares of the coalition and the group key
		vals = nil
		for _, x := range k {
			if coal.Contains(x.ID) {
				vals = append(vals, &x.Out.SecretKey.Secret)
			}
		}
		gk := ristretto.NewIdentityElement()
		for _, m := range m1 {
			gk = lib.EAdd(gk, m.KeyGen1.Commitments.Constant())
		}
		vals = append(vals, gk)
		vsym.Independent("t-final-shares-hide-the-key", vals...)
	}
	vsym.Cover("keygen")
}

func wireShare(all []*messages.Message, m *messages.Message) *ristretto.Scalar {
	return &m.KeyGen2.Share
}

// CheckFresh: coefficients and proof nonces of all parties and of repeated
// runs are independent.
func CheckFresh() {
	ids := party.IDSlice{1, 2, 3}
	t := party.Size(1 + vsym.Choose("t", 2))
	var vals []interface{}
	for run := 0; run < 2; run++ {
		k := lib.NewKeygen(ids, t, 0)
		m1 := lib.Round(lib.KGStates(k), nil)
		for _, m := range m1 {
			vsym.Assert(m.KeyGen1.Commitments.Degree() == t, "commitment-degree-is-threshold")
			b, err := m.KeyGen1.Commitments.MarshalBinary()
			vsym.Assert(err == nil && len(b) == 2+32*int(t+1), "commitment-length")
			for i := 0; i <= int(t); i++ {
				var e ristretto.Element
				_, err := e.SetCanonicalBytes(b[2+32*i : 34+32*i])
				vsym.Assert(err == nil, "commitment-decodes")
				vals = append(vals, &e)
			}
			// nonce commitment R·B - S·P of the proof
			p := m.KeyGen1.Proof
			vals = append(vals, lib.ESub(lib.Base(&p.R), lib.EMul(&p.S, m.KeyGen1.Commitments.Constant())))
		}
	}
	vsym.Independent("coefficients-and-nonces-fresh", vals...)
	vsym.Cover("fresh")
}

// CheckDealer: trusted-dealer sharing has the same threshold.
func CheckDealer() {
	ids := sets()
	t := vsym.Choose("t", len(ids))
	secret, shares := helpers.GenerateSecrets(ids, party.Size(t))
	vsym.Assert(len(shares) == len(ids), "dealer-share-count")
	for mask := 0; mask < 1<<uint(len(ids)); mask++ {
		sub := lib.Subset(ids, mask)
		switch lib.Bits(mask) {
		case t:
			vals := []interface{}{secret}
			for _, id := range sub {
				vals = append(vals, &shares[id].Secret)
			}
			vsym.Independent("t-dealt-shares-hide-the-secret", vals...)
		case t + 1:
			var ys []*ristretto.Scalar
			for _, id := range sub {
				ys = append(ys, &shares[id].Secret)
			}
			vsym.Assert(lib.SEq(lib.Interpolate(sub, ys, ristretto.NewScalar()), secret), "dealt-shares-reconstruct")
		}
	}
	vsym.Cover("dealer")
}

// CheckPolynomial: a polynomial has the requested constant and otherwise
// independent random coefficients.
func CheckPolynomial() {
	d := vsym.Choose("degree", 7)
	c := scalar.NewScalarRandom()
	p := polynomial.NewPolynomial(party.Size(d), c)
	vsym.Assert(int(p.Degree()) == d && p.Size() == d+1, "polynomial-degree")
	vsym.Assert(lib.SEq(p.Constant(), c), "polynomial-constant")
	vals := []interface{}{c}
	for i := 1; i <= d; i++ {
		vals = append(vals, p.Evaluate(lib.Small(uint64(i))))
	}
	vsym.Independent("polynomial-values-independent", vals...)
	vsym.Cover("polynomial")
}

// CheckNobody: no polynomial is evaluated at zero, the value that is the secret,
// neither directly nor for a party list that names party zero.
func CheckNobody() {
	d := vsym.Choose("degree", 7)
	if vsym.Choose("list", 2) == 0 {
		p := polynomial.NewPolynomial(party.Size(d), scalar.NewScalarRandom())
		x := vsym.Scalar("x")
		zero := lib.SZero(x)
		var y *ristretto.Scalar
		refused := vsym.Panics(func() { y = p.Evaluate(x) })
		vsym.Assert(refused == zero, "value-at-zero-refused")
		if zero {
			vsym.Assert(y == nil, "value-at-zero-refused")
			vsym.Cover("zero")
		}
		return
	}
	ids := party.IDSlice{0, 1, 2, 3, 4, 5, 6, 7}[:d+1]
	var shares map[party.ID]*eddsa.SecretShare
	vsym.Assert(vsym.Panics(func() { _, shares = helpers.GenerateSecrets(ids, party.Size(d)) }), "dealing-to-party-zero-refused")
	vsym.Assert(shares == nil, "dealing-to-party-zero-refused")
	if d > 0 {
		// key generation with a party zero may be refused or may fail, but nobody
		// ever sends a value at zero
		self := ids[vsym.Choose("self", 2)]
		var out []*messages.Message
		vsym.Panics(func() {
			st, _, err := frost.NewKeygenState(self, ids, party.Size(d), 0)
			if err != nil {
				return
			}
			out = st.ProcessAll()
			for _, id := range ids {
				if id != self {
					x := scalar.NewScalarRandom()
					e := polynomial.NewPolynomialExponent(polynomial.NewPolynomial(party.Size(d), x))
					_ = st.HandleMessage(messages.NewKeyGen1(id, zk.NewSchnorrProof(id, lib.Base(x), make([]byte, 32), x), e))
				}
			}
			out = append(out, st.ProcessAll()...)
		})
		for _, m := range out {
			vsym.Assert(m.KeyGen2 == nil || m.To != 0, "no-share-for-party-zero")
			vsym.Assert(self != 0, "party-zero-does-not-take-part")
		}
	}
	vsym.Cover("nobody")
}

// CheckMany: more parties, higher thresholds.
func CheckMany() {
	vsym.Deep()
	n := vsym.Count("n", lib.LimitOne(), 12, 258)
	t := vsym.Count("t", n-1, 1, n-1)
	vsym.Assume(t == n-1 || n <= lib.Limit())
	ids := lib.Many(n)
	if vsym.Choose("dealer", 2) == 1 {
		secret, shares := helpers.GenerateSecrets(ids, party.Size(t))
		vals := []interface{}{secret}
		for _, id := range ids[n-t:] {
			vals = append(vals, &shares[id].Secret)
		}
		vsym.Independent("t-dealt-shares-hide-the-secret", vals...)
		vsym.Cover("many-dealt")
		return
	}
	s, _, err := frost.NewKeygenState(ids[0], ids, party.Size(t), 0)
	vsym.Assert(err == nil, "keygen-setup-accepted")
	m := s.ProcessAll()[0].KeyGen1
	cs := lib.Coefficients(m.Commitments)
	vsym.Assert(len(cs) == t+1, "commitment-degree-is-threshold")
	var vals []interface{}
	for _, c := range cs {
		vals = append(vals, c)
	}
	vals = append(vals, lib.ESub(lib.Base(&m.Proof.R), lib.EMul(&m.Proof.S, cs[0])))
	vsym.Independent("coefficients-and-nonces-fresh", vals...)
	vsym.Cover("many")
}
