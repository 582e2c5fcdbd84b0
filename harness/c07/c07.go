// Package c07: what a signer's response is bound to.
package c07

import (
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "two signings by the same 2..3 signers (of n<=4) that differ in exactly one of: message bytes (lengths 0..8, 64, 128), one signer's first or second commitment (any shift), the swap of one signer's commitments, the swap of two signers' commitments, the set of signers, the group key, or in a signer's part that moves to the end of the message; one commitment among those of 9 and the numbers up to 36 (thorough 70) of signers that the code treats specially, and the response of one among 993 signers; nonces and key shares symbolic and equal in both signings"

// signing with prescribed nonces
type run struct {
	ids  party.IDSlice
	rho  map[party.ID]*ristretto.Scalar
	c    *ristretto.Scalar
	zs   map[party.ID]*ristretto.Scalar
	sig  *eddsa.Signature
	used bool
}

func do(ids party.IDSlice, secrets map[party.ID]*eddsa.SecretShare, pub *eddsa.Public, msg []byte, n1, n2 map[party.ID]*ristretto.Scalar) *run {
	sg := lib.NewSign(ids, secrets, pub, msg, 0)
	sts := lib.SGStates(sg)
	var m1 []*messages.Message
	for i, id := range ids {
		vsym.NextRand(n1[id], n2[id])
		m1 = append(m1, sts[i].ProcessAll()...)
		vsym.NoMoreRand()
	}
	m2 := lib.Round(sts, m1)
	lib.Round(sts, m2)
	r := &run{ids: ids, rho: map[party.ID]*ristretto.Scalar{}, zs: map[party.ID]*ristretto.Scalar{}, used: true}
	for _, x := range sg {
		vsym.Assert(x.St.IsFinished() && x.St.Err() == nil, "signing-completes")
	}
	r.sig = sg[0].Out.Signature
	vsym.Assert(pub.GroupKey.Verify(msg, r.sig), "signature-verifies")
	r.c = eddsa.ComputeChallenge(&r.sig.R, pub.GroupKey, msg)
	xs := lib.IDScalars(ids)
	for j, id := range ids {
		d, e := n1[id], n2[id]
		if !lib.EEq(&m1[j].Sign1.Di, lib.Base(d)) {
			d, e = e, d
		}
		if !lib.EEq(&m1[j].Sign1.Di, lib.Base(d)) || !lib.EEq(&m1[j].Sign1.Ei, lib.Base(e)) {
			// nonces are not drawn as two uniform scalars
			r.used = false
			continue
		}
		z := &m2[j].Sign2.Zi
		lam := lib.RefLagrange(xs, j, ristretto.NewScalar())
		v := lib.SSub(lib.SSub(z, d), lib.SMul(lib.SMul(lam, r.c), &secrets[id].Secret))
		r.rho[id] = lib.SMul(v, lib.SInv(e))
		r.zs[id] = z
	}
	return r
}

func nonces(ids party.IDSlice, name string) map[party.ID]*ristretto.Scalar {
	r := map[party.ID]*ristretto.Scalar{}
	for _, id := range ids {
		s := vsym.Scalar(name)
		vsym.Assume(!lib.SZero(s))
		r[id] = s
	}
	return r
}

func with(m map[party.ID]*ristretto.Scalar, id party.ID, s *ristretto.Scalar) map[party.ID]*ristretto.Scalar {
	r := map[party.ID]*ristretto.Scalar{}
	for k, v := range m {
		r[k] = v
	}
	r[id] = s
	return r
}

// CheckBinding: binding factors change with everything they must be bound to.
func CheckBinding() {
	ids := party.IDSlice{1, 2, 258, 65535}
	t := 1
	_, secrets := helpers.GenerateSecrets(ids, party.Size(t))
	pub := helpers.GeneratePublic(party.Size(t), secrets)
	signers := ids[:2+vsym.Choose("signers", 2)]
	n1, n2 := nonces(ids, "nonce1"), nonces(ids, "nonce2")
	what := vsym.Choose("what", 8)
	lens := []int{0, 1, 8}
	if vsym.Tier() > 0 {
		lens = []int{0, 1, 2, 8, 64, 128, 1000}
	}
	la := 8
	if what == 0 {
		la = vsym.Length("len", 1<<16, lens...)
	}
	msg := lib.Message("message", la)
	sig2, msg2, m1, m2 := signers, msg, n1, n2
	pub2, secrets2 := pub, secrets
	j := signers[vsym.Choose("changed", len(signers))]
	d := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(d))
	switch what {
	case 0:
		msg2 = lib.Message("message2", vsym.Length("len2", 1<<16, lens...))
		vsym.Assume(!lib.BytesEq(msg, msg2))
	case 1:
		m1 = with(n1, j, lib.SAdd(n1[j], d))
		vsym.Assume(!lib.SZero(m1[j]))
	case 2:
		m2 = with(n2, j, lib.SAdd(n2[j], d))
		vsym.Assume(!lib.SZero(m2[j]))
	case 3:
		vsym.Assume(!lib.SEq(n1[j], n2[j]))
		m1, m2 = with(n1, j, n2[j]), with(n2, j, n1[j])
	case 4:
		// a signer with the same commitments under another ID
		sig2 = append(signers[:len(signers)-1].Copy(), ids[3])
		m1 = with(n1, ids[3], n1[signers[len(signers)-1]])
		m2 = with(n2, ids[3], n2[signers[len(signers)-1]])
	case 5:
		// one signer more
		sig2 = append(signers.Copy(), ids[3])
	case 6:
		// two signers swap their commitments
		a, b := signers[0], signers[1]
		vsym.Assume(!lib.SEq(n1[a], n1[b]))
		m1 = with(with(n1, a, n1[b]), b, n1[a])
		m2 = with(with(n2, a, n2[b]), b, n2[a])
	case 7:
		// one signer less, whose part is at the end of the message instead
		j = signers[0]
		vsym.Assume(len(signers) == 3)
		sig2 = signers[1:]
		var part []byte
		for _, b := range [][]byte{j.Bytes(), lib.Base(n1[j]).Bytes(), lib.Base(n2[j]).Bytes()} {
			part = append(part, b...)
		}
		msg2 = append(append([]byte{}, msg...), part...)
	}
	r1 := do(signers, secrets, pub, msg, n1, n2)
	r2 := do(sig2, secrets2, pub2, msg2, m1, m2)
	if !r1.used || !r2.used {
		return
	}
	for _, id := range signers {
		if !sig2.Contains(id) {
			continue
		}
		vsym.Assert(!lib.SEq(r1.rho[id], r2.rho[id]), "binding-factor-changes")
	}
	vsym.Assert(!lib.SEq(r1.c, r2.c), "challenge-changes")
	vsym.Cover("binding")
}

// CheckDistinct: binding factors differ between signers, even with equal
// commitments, and are the same whenever everything is the same.
func CheckDistinct() {
	ids := party.IDSlice{1, 2, 258, 65535}
	_, secrets := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, secrets)
	signers := ids[:2+vsym.Choose("signers", 3)]
	n1, n2 := nonces(ids, "nonce1"), nonces(ids, "nonce2")
	if vsym.Choose("equal", 2) == 1 {
		for _, id := range ids {
			n1[id], n2[id] = n1[ids[0]], n2[ids[0]]
		}
	}
	msg := vsym.Bytes("message", 4)
	r := do(signers, secrets, pub, msg, n1, n2)
	r2 := do(signers, secrets, pub, msg, n1, n2)
	if !r.used {
		return
	}
	for i, a := range signers {
		vsym.Assert(!lib.SZero(r.rho[a]), "binding-factor-not-zero")
		vsym.Assert(lib.SEq(r.rho[a], r2.rho[a]), "binding-factor-deterministic")
		for _, b := range signers[:i] {
			vsym.Assert(!lib.SEq(r.rho[a], r.rho[b]), "binding-factor-per-signer")
		}
	}
	vsym.Cover("distinct")
}

// CheckKey: signing under another group key gives another challenge.
func CheckKey() {
	ids := party.IDSlice{1, 2}
	n1, n2 := nonces(ids, "nonce1"), nonces(ids, "nonce2")
	msg := vsym.Bytes("message", 4)
	var rs []*run
	for i := 0; i < 2; i++ {
		_, secrets := helpers.GenerateSecrets(ids, 1)
		pub := helpers.GeneratePublic(1, secrets)
		rs = append(rs, do(ids, secrets, pub, msg, n1, n2))
	}
	vsym.Assert(!lib.SEq(rs[0].c, rs[1].c), "challenge-binds-group-key")
	vsym.Cover("key")
}

// CheckNonces: commitments of all signers and signings are fresh, and the
// responses reveal nothing about the key.
func CheckNonces() {
	ids := party.IDSlice{1, 2, 3}
	secret, secrets := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, secrets)
	msg := []byte("the same message")
	var vals, zs []interface{}
	for k := 0; k < 3; k++ {
		sg := lib.NewSign(ids, secrets, pub, msg, 0)
		sts := lib.SGStates(sg)
		m1 := lib.Round(sts, nil)
		vsym.Assert(len(m1) == 3, "one-commitment-per-signer")
		for _, m := range m1 {
			vals = append(vals, &m.Sign1.Di, &m.Sign1.Ei)
		}
		if k == 2 {
			break // abandoned signing
		}
		m2 := lib.Round(sts, m1)
		for _, m := range m2 {
			zs = append(zs, &m.Sign2.Zi)
		}
		lib.Round(sts, m2)
	}
	vsym.Independent("nonce-commitments-fresh", vals...)
	zs = append(zs, secret)
	for _, id := range ids[:1] {
		zs = append(zs, &secrets[id].Secret)
	}
	vsym.Independent("responses-hide-the-key", zs...)
	vsym.Cover("nonces")
}

// CheckMany: one commitment changes among those of many signers.
func CheckMany() {
	n := vsym.Count("n", lib.Limit(), 9)
	ids := lib.Many(n)
	_, secrets := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, secrets)
	n1, n2 := nonces(ids, "nonce1"), nonces(ids, "nonce2")
	j := ids[[]int{0, n / 2, n - 2, n - 1}[vsym.Choose("changed", 4)]]
	d := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(d))
	m1, m2 := n1, n2
	if vsym.Choose("second", 2) == 1 {
		m2 = with(n2, j, lib.SAdd(n2[j], d))
		vsym.Assume(!lib.SZero(m2[j]))
	} else {
		m1 = with(n1, j, lib.SAdd(n1[j], d))
		vsym.Assume(!lib.SZero(m1[j]))
	}
	msg := vsym.Bytes("message", 4)
	r1 := do(ids, secrets, pub, msg, n1, n2)
	r2 := do(ids, secrets, pub, msg, m1, m2)
	if !r1.used || !r2.used {
		return
	}
	for i, id := range ids {
		vsym.Assert(!lib.SEq(r1.rho[id], r2.rho[id]), "binding-factor-changes")
		if i > 0 {
			vsym.Assert(!lib.SEq(r1.rho[id], r1.rho[ids[i-1]]), "binding-factor-per-signer")
		}
	}
	vsym.Cover("many")
}

// CheckCrowd: one signer among a thousand, more than what fits sizes of 16
// bits. Its share is zero, so that the response shows the binding factor.
func CheckCrowd() {
	vsym.Deep()
	n := 993
	ids := make(party.IDSlice, n)
	shares := map[party.ID]*ristretto.Element{}
	X := vsym.Element("X")
	for i := range ids {
		ids[i] = party.ID(i + 1)
		shares[ids[i]] = X
	}
	d, e := vsym.Scalar("nonce1"), vsym.Scalar("nonce2")
	vsym.Assume(!lib.SZero(d) && !lib.SZero(e))
	self := ids[n/2]
	shares[self] = ristretto.NewIdentityElement()
	pub := &eddsa.Public{PartyIDs: ids, Threshold: 1, Shares: shares, GroupKey: eddsa.NewPublicKeyFromPoint(X)}
	D, E := vsym.Element("D"), vsym.Element("E")
	D2 := lib.EAdd(D, lib.Base(vsym.Scalar("delta")))
	vsym.Assume(!lib.EZero(D) && !lib.EZero(E) && !lib.EZero(D2) && !lib.EEq(D, D2))
	msg := vsym.Bytes("message", 4)
	var zs [2]*ristretto.Scalar
	for k := range zs {
		st, _, err := frost.NewSignState(ids, eddsa.NewSecretShare(self, ristretto.NewScalar()), pub, msg, 0)
		vsym.Assert(err == nil, "crowd-accepted")
		vsym.NextRand(d, e)
		st.ProcessAll()
		vsym.NoMoreRand()
		for _, id := range ids {
			m := messages.NewSign1(id, D, E)
			if k == 1 && id == ids[n-1] {
				m = messages.NewSign1(id, D2, E)
			}
			vsym.Assert(st.HandleMessage(m) == nil, "honest-message-accepted")
		}
		out := st.ProcessAll()
		vsym.Assert(len(out) == 1 && out[0].Sign2 != nil, "crowd-continues")
		zs[k] = &out[0].Sign2.Zi
	}
	vsym.Assert(!lib.SEq(zs[0], zs[1]), "binding-factor-changes")
	vsym.Cover("crowd")
}
