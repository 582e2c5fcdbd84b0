// Package c01: honest distributed key generation.
package c01

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "n in 2..3 with arbitrary 16-bit IDs (forward and reverse map iteration), and the listed ID sets up to n=5 (quick) or n=10 (thorough), and 12 and every number up to 36 (thorough 70) that the code treats specially; one party among 20 others, among every number up to 140 that the code treats specially, and among 257; every threshold; all coefficients and nonces symbolic"

func check(ids party.IDSlice, t party.Size) {
	k, m1 := lib.RunKeygen(ids, t)
	sum := ristretto.NewIdentityElement()
	for _, m := range m1 {
		sum = lib.EAdd(sum, m.KeyGen1.Commitments.Constant())
	}
	for _, x := range k {
		vsym.Assert(x.St.IsFinished(), "dkg-terminates")
		vsym.Assert(x.St.Err() == nil, "dkg-no-error")
		vsym.Assert(x.St.WaitForError() == nil, "dkg-wait-no-error")
		vsym.Assert(x.Out.Public != nil && x.Out.SecretKey != nil, "dkg-output-present")
		p := x.Out.Public
		vsym.Assert(p.Threshold == t, "dkg-threshold")
		vsym.Assert(lib.SameIDs(p.PartyIDs, ids), "dkg-party-list")
		vsym.Assert(len(p.Shares) == len(ids), "dkg-share-count")
		vsym.Assert(x.Out.SecretKey.ID == x.ID, "dkg-share-id")
		vsym.Assert(lib.EEq(lib.Base(&x.Out.SecretKey.Secret), p.Shares[x.ID]), "dkg-secret-matches-public-share")
		vsym.Assert(lib.EEq(&x.Out.SecretKey.Public, p.Shares[x.ID]), "dkg-share-public-field")
		vsym.Assert(p.Equal(k[0].Out.Public), "dkg-public-agreement")
		for _, y := range k {
			vsym.Assert(lib.EEq(p.Shares[y.ID], k[0].Out.Public.Shares[y.ID]), "dkg-shares-agree")
		}
		vsym.Assert(p.GroupKey.Equal(k[0].Out.Public.GroupKey), "dkg-groupkey-agree")
	}
	// every set of t+1 shares determines the same key pair
	gk := k[0].Out.Public.GroupKey
	for mask := 1; mask < 1<<uint(len(ids)) && len(ids) <= 10; mask++ {
		if lib.Bits(mask) < int(t)+1 || (len(ids) > 4 && lib.Bits(mask) != int(t)+1) {
			continue
		}
		if len(ids) > 5 && mask&(mask>>1) != 0 && mask != 1<<(uint(t)+1)-1 {
			continue
		}
		sub := lib.Subset(ids, mask)
		var ys []*ristretto.Scalar
		for _, x := range k {
			if sub.Contains(x.ID) {
				ys = append(ys, &x.Out.SecretKey.Secret)
			}
		}
		s := lib.Interpolate(sub, ys, ristretto.NewScalar())
		vsym.Assert(lib.BytesEq(lib.Base(s).BytesEd25519(), gk.ToEd25519()), "dkg-threshold-shares-reconstruct-key")
	}
	if n := len(ids); n > 10 {
		for _, from := range []int{0, n - int(t) - 1} {
			var ys []*ristretto.Scalar
			for _, x := range k[from : from+int(t)+1] {
				ys = append(ys, &x.Out.SecretKey.Secret)
			}
			s := lib.Interpolate(ids[from:from+int(t)+1], ys, ristretto.NewScalar())
			vsym.Assert(lib.BytesEq(lib.Base(s).BytesEd25519(), gk.ToEd25519()), "dkg-threshold-shares-reconstruct-key")
		}
	}
	vsym.Assert(lib.BytesEq(sum.BytesEd25519(), gk.ToEd25519()), "dkg-key-is-sum-of-contributions")
	vsym.Cover("dkg-done")
}

func CheckSymbolicIDs() {
	vsym.MapOrder(vsym.Choose("order", 2))
	n := 2 + vsym.Choose("n", 2)
	t := 1 + vsym.Choose("t", n-1)
	check(lib.SymIDs(n), party.Size(t))
}

func CheckIDSets() {
	vsym.MapOrder(vsym.Choose("order", 2))
	max := 10
	if vsym.Tier() > 0 {
		max = len(lib.IDSets)
	}
	ids := lib.IDSets[vsym.Choose("set", max)]
	t := 1 + vsym.Choose("t", len(ids)-1)
	check(ids, party.Size(t))
}

// CheckLarge: more parties.
func CheckLarge() {
	n := vsym.Count("n", lib.Limit(), 12)
	check(lib.Many(n), party.Size(vsym.Count("t", n-1, 1, n-1)))
}

// CheckOne: one party among many, from whose messages its output follows.
func CheckOne() {
	n := vsym.Count("n", lib.LimitOne(), 21)
	t := vsym.Count("t", n-1, 2)
	one(n, t, vsym.Choose("me", 2)*(n-1), false)
	vsym.Cover("one")
}

// CheckCrowd: numbers that do not fit eight bits. The polynomials of the
// others have only an arbitrary first and last coefficient.
func CheckCrowd() {
	vsym.Deep()
	n := 258
	one(n, n-1, n/2, true)
	vsym.Cover("crowd")
}

func one(n, t, me int, sparse bool) {
	ids := lib.Many(n)
	st, out, err := frost.NewKeygenState(ids[me], ids, party.Size(t), 0)
	vsym.Assert(err == nil, "dkg-starts")
	m1 := st.ProcessAll()
	vsym.Assert(len(m1) == 1 && m1[0].KeyGen1 != nil, "dkg-broadcast")
	// the sum of all polynomials, as far as it is known, and in the exponent
	sum := make([]*ristretto.Scalar, t+1)
	for i := range sum {
		sum[i] = ristretto.NewScalar()
	}
	mine := lib.Coefficients(m1[0].KeyGen1.Commitments)
	vsym.Assert(len(mine) == t+1, "dkg-degree")
	shares := make([]*ristretto.Scalar, n)
	x := ids[me].Scalar()
	for j, id := range ids {
		if j == me {
			continue
		}
		cs := make([]*ristretto.Element, t+1)
		f := make([]*ristretto.Scalar, t+1)
		for i := range f {
			f[i] = ristretto.NewScalar()
			if !sparse || i == 0 || i == t {
				f[i] = vsym.Scalar("coefficient")
			}
			sum[i] = lib.SAdd(sum[i], f[i])
			cs[i] = lib.Base(f[i])
		}
		shares[j] = ristretto.NewScalar()
		for i := t; i >= 0; i-- {
			shares[j] = lib.SAdd(lib.SMul(shares[j], x), f[i])
		}
		proof := zk.NewSchnorrProof(id, cs[0], make([]byte, 32), f[0])
		lib.Deliver(st, messages.NewKeyGen1(id, proof, lib.ExponentOf(cs)))
	}
	m2 := st.ProcessAll()
	vsym.Assert(!st.IsFinished() && len(m2) == n-1, "dkg-one-share-for-everybody")
	for j, id := range ids {
		if j != me {
			lib.Deliver(st, messages.NewKeyGen2(id, ids[me], shares[j]))
		}
	}
	st.ProcessAll()
	vsym.Assert(st.IsFinished() && st.WaitForError() == nil, "dkg-terminates")
	p := out.Public
	vsym.Assert(p != nil && out.SecretKey != nil, "dkg-output-present")
	vsym.Assert(int(p.Threshold) == t && lib.SameIDs(p.PartyIDs, ids) && len(p.Shares) == n, "dkg-party-list")
	at := func(x *ristretto.Scalar) *ristretto.Element {
		y, e := ristretto.NewScalar(), ristretto.NewIdentityElement()
		for i := t; i >= 0; i-- {
			y = lib.SAdd(lib.SMul(y, x), sum[i])
			e = lib.EAdd(lib.EMul(x, e), mine[i])
		}
		return lib.EAdd(lib.Base(y), e)
	}
	for j, id := range ids {
		s := p.Shares[id]
		vsym.Assert(s != nil, "dkg-share-present")
		if j < 3 || j > n-4 || j%8 < 2 && !sparse {
			vsym.Assert(lib.EEq(s, at(id.Scalar())), "dkg-public-share-right")
		}
	}
	vsym.Assert(lib.BytesEq(p.GroupKey.ToEd25519(), at(ristretto.NewScalar()).BytesEd25519()), "dkg-key-is-sum-of-contributions")
	vsym.Assert(out.SecretKey.ID == ids[me], "dkg-share-id")
	vsym.Assert(lib.EEq(lib.Base(&out.SecretKey.Secret), p.Shares[ids[me]]), "dkg-secret-matches-public-share")
	for j, m := range m2 {
		if sparse && j > 2 && j < len(m2)-3 {
			continue
		}
		// what we sent to the others
		want := ristretto.NewIdentityElement()
		for i := t; i >= 0; i-- {
			want = lib.EAdd(lib.EMul(m.To.Scalar(), want), mine[i])
		}
		vsym.Assert(lib.EEq(lib.Base(&m.KeyGen2.Share), want), "dkg-share-matches-commitments")
	}
}
