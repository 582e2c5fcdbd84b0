// Package c05: honest threshold signing.
package c05

import (
	"crypto/ed25519"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
)

const Bounds = "keys from key generation (n<=3, arbitrary IDs for n=2) or from a dealer (listed ID sets up to n=5, thorough n=10; 10 and the numbers up to 36 (thorough 70) that the code treats specially); every signer subset of at least t+1 parties; message bytes arbitrary, lengths 0, 1, 32, 64, 111, 112, 128, 200, and 1000, 65536 and those special to the code with arbitrary parts; two signings after each other by any two equally large minimal subsets of 6 (thorough 4..7) parties, with the same or other keys, and of 5 parties with arbitrary IDs that share the first party (thorough 4..6, all)"

func sign(ids party.IDSlice, secrets map[party.ID]*eddsa.SecretShare, pubs map[party.ID]*eddsa.Public, msg []byte) *eddsa.Signature {
	var sg []*lib.SG
	for _, id := range ids {
		sg = append(sg, lib.NewSigner(ids, secrets[id], pubs[id], msg, 0))
	}
	sts := lib.SGStates(sg)
	m1 := lib.Round(sts, nil)
	vsym.Assert(len(m1) == len(ids), "one-commitment-per-signer")
	m2 := lib.Round(sts, m1)
	vsym.Assert(len(m2) == len(ids), "one-response-per-signer")
	m3 := lib.Round(sts, m2)
	vsym.Assert(len(m3) == 0, "no-message-after-last-round")
	gk := pubs[ids[0]].GroupKey
	ref := sg[0].Out.Signature
	for _, x := range sg {
		vsym.Assert(x.St.IsFinished() && x.St.WaitForError() == nil, "signing-completes")
		s := x.Out.Signature
		vsym.Assert(s != nil, "signature-present")
		vsym.Assert(gk.Verify(msg, s), "signature-verifies")
		vsym.Assert(ed25519.Verify(gk.ToEd25519(), msg, s.ToEd25519()), "signature-verifies-as-ed25519")
		vsym.Assert(s.Equal(ref) && lib.BytesEq(s.ToEd25519(), ref.ToEd25519()), "signers-agree")
	}
	vsym.Cover("signed")
	return ref
}

func same(ids party.IDSlice, p *eddsa.Public) map[party.ID]*eddsa.Public {
	r := map[party.ID]*eddsa.Public{}
	for _, id := range ids {
		r[id] = p
	}
	return r
}

func subset(ids party.IDSlice, t int) party.IDSlice {
	mask := 1 + vsym.Choose("signers", 1<<uint(len(ids))-1)
	vsym.Assume(lib.Bits(mask) > t)
	return lib.Subset(ids, mask)
}

// CheckFromKeygen signs with the outputs of a full key generation.
func CheckFromKeygen() {
	vsym.MapOrder(vsym.Choose("order", 2))
	ids := lib.IDSets[vsym.Choose("set", 6)]
	t := 1 + vsym.Choose("t", len(ids)-1)
	k, _ := lib.RunKeygen(ids, party.Size(t))
	pubs := map[party.ID]*eddsa.Public{}
	for _, x := range k {
		pubs[x.ID] = x.Out.Public
	}
	sign(subset(ids, t), lib.Secrets(k), pubs, vsym.Bytes("message", 5))
}

// CheckSymbolicIDs signs with arbitrary IDs.
func CheckSymbolicIDs() {
	vsym.MapOrder(vsym.Choose("order", 2))
	n := 2
	if vsym.Tier() > 0 {
		n = 2 + vsym.Choose("n", 2)
	}
	ids := lib.SymIDs(n)
	t := 1 + vsym.Choose("t", n-1)
	k, _ := lib.RunKeygen(ids, party.Size(t))
	pubs := map[party.ID]*eddsa.Public{}
	for _, x := range k {
		pubs[x.ID] = x.Out.Public
	}
	sign(subset(ids, t), lib.Secrets(k), pubs, vsym.Bytes("message", 5))
}

// CheckDealer signs with dealt keys, all subsets.
func CheckDealer() {
	vsym.MapOrder(vsym.Choose("order", 2))
	max := 9
	if vsym.Tier() > 0 {
		max = len(lib.IDSets)
	}
	ids := lib.IDSets[vsym.Choose("set", max)]
	t := 1 + vsym.Choose("t", len(ids)-1)
	_, secrets := helpers.GenerateSecrets(ids, party.Size(t))
	pub := helpers.GeneratePublic(party.Size(t), secrets)
	if len(ids) > 5 {
		// only minimal subsets and the full set for large n
		mask := 1 + vsym.Choose("signers", 1<<uint(len(ids))-1)
		b := lib.Bits(mask)
		vsym.Assume(b == t+1 && (mask&(mask>>1) == 0 || mask>>uint(b) == 0) || b == len(ids))
		sub := lib.Subset(ids, mask)
		sign(sub, secrets, same(ids, pub), vsym.Bytes("message", 5))
		return
	}
	sign(subset(ids, t), secrets, same(ids, pub), vsym.Bytes("message", 5))
}

// CheckMessage signs messages of all lengths.
func CheckMessage() {
	ids := party.IDSlice{1, 2, 3}
	_, secrets := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, secrets)
	msg := lib.Message("message", vsym.Length("len", 1<<17, 0, 1, 32, 64, 111, 112, 128, 200, 1000, 65536))
	sign(party.IDSlice{1, 3}, secrets, same(ids, pub), msg)
}

// CheckHistory: an earlier signing by other signers, with the same keys or
// others, does not matter.
func CheckHistory() {
	n, t := 6, 2
	if vsym.Tier() > 0 {
		n = 4 + vsym.Choose("n", 4)
		t = n / 2
	}
	history(lib.IDSets[10][:n], t, 0)
}

// CheckHistoryIDs is CheckHistory for arbitrary IDs.
func CheckHistoryIDs() {
	n, t := 5, 2
	if vsym.Tier() > 0 {
		n = 4 + vsym.Choose("n", 3)
		t = n / 2
	}
	history(lib.SymIDs(n), t, 1-vsym.Tier())
}

func history(ids party.IDSlice, t int, common int) {
	n := len(ids)
	_, secrets := helpers.GenerateSecrets(ids, party.Size(t))
	pub := helpers.GeneratePublic(party.Size(t), secrets)
	first, second := subset(ids, t), subset(ids, t)
	vsym.Assume(len(first) == t+1 || len(first) == n && common == 0)
	vsym.Assume(len(second) == len(first))
	if common == 1 {
		vsym.Assume(first.Contains(ids[0]) && second.Contains(ids[0]))
	}
	sign(first, secrets, same(ids, pub), []byte{1})
	if common == 0 && vsym.Choose("keys", 2) == 1 {
		_, secrets = helpers.GenerateSecrets(ids, party.Size(t))
		pub = helpers.GeneratePublic(party.Size(t), secrets)
	}
	sign(second, secrets, same(ids, pub), []byte{2})
	vsym.Cover("history")
}

// CheckTwice: keys can be used for several, also concurrent, signings.
func CheckTwice() {
	ids := party.IDSlice{1, 2, 3}
	_, secrets := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, secrets)
	m1, m2 := vsym.Bytes("message", 4), vsym.Bytes("message", 4)
	s1 := sign(party.IDSlice{1, 2}, secrets, same(ids, pub), m1)
	a := lib.NewSign(party.IDSlice{1, 3}, secrets, pub, m2, 0)
	b := lib.NewSign(party.IDSlice{1, 3}, secrets, pub, m1, 0)
	sa, sb := lib.SGStates(a), lib.SGStates(b)
	a1, b1 := lib.Round(sa, nil), lib.Round(sb, nil)
	a2, b2 := lib.Round(sa, a1), lib.Round(sb, b1)
	lib.Round(sb, b2)
	lib.Round(sa, a2)
	vsym.Assert(a[0].Out.Signature != nil && b[1].Out.Signature != nil, "concurrent-signings-complete")
	vsym.Assert(pub.GroupKey.Verify(m2, a[0].Out.Signature) && pub.GroupKey.Verify(m1, b[1].Out.Signature), "concurrent-signatures-verify")
	vsym.Assert(pub.GroupKey.Verify(m1, s1), "earlier-signature-still-verifies")
	s3 := sign(ids, secrets, same(ids, pub), m2)
	vsym.Assert(!lib.EEq(&s3.R, &a[0].Out.Signature.R), "nonces-differ")
	vsym.Cover("twice")
}

// CheckMany: more parties and signers.
func CheckMany() {
	n := vsym.Count("n", lib.Limit(), 10)
	t := vsym.Count("t", n-1, 2, n-1)
	ids := lib.Many(n)
	_, secrets := helpers.GenerateSecrets(ids, party.Size(t))
	pub := helpers.GeneratePublic(party.Size(t), secrets)
	sub := ids
	if vsym.Choose("all", 2) == 0 {
		sub = ids[n-t-1:]
	}
	sign(sub, secrets, same(ids, pub), vsym.Bytes("message", 5))
	vsym.Cover("many")
}
