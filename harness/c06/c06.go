// Package c06: signing against misbehaving signers.
package c06

import (
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "2..4 signers out of n<=5 parties (one wrong response: also 8 and the numbers up to 36, thorough 70, that the code treats specially), one or two misbehaving; commitments replaced by arbitrary elements, shifted, swapped, copied or the identity; responses shifted by any scalar, arbitrary, or copied; a signer with any other key share; fewer signers than needed; message bytes arbitrary (8 bytes)"

const Assumptions = "broadcasts reach every signer unchanged"

var sets = []party.IDSlice{{1, 2}, {1, 2, 3}, {255, 256, 257}, {1, 2, 3, 4}, {3, 128, 255, 32768, 65535}}

func setup() (party.IDSlice, party.IDSlice, int, map[party.ID]*eddsa.SecretShare, *eddsa.Public) {
	n := 4
	if vsym.Tier() > 0 {
		n = 5
	}
	ids := sets[vsym.Choose("set", n)]
	t := 1 + vsym.Choose("t", len(ids)-1)
	if vsym.Tier() == 0 {
		vsym.Assume(t <= 2)
	}
	_, secrets := helpers.GenerateSecrets(ids, party.Size(t))
	pub := helpers.GeneratePublic(party.Size(t), secrets)
	signers := ids[len(ids)-t-1:]
	if vsym.Choose("all", 2) == 1 {
		vsym.Assume(len(ids) > t+1 && len(ids) < 5)
		signers = ids
	}
	return ids, signers, t, secrets, pub
}

func aborted(x *lib.SG, culprit party.ID) {
	vsym.Assert(x.St.IsFinished(), "cheating-detected")
	err := x.St.WaitForError()
	vsym.Assert(err != nil, "cheating-reported")
	vsym.Assert(lib.Blamed(err) == culprit, "culprit-named")
	vsym.Assert(x.Out.Signature == nil, "no-signature-after-error")
	vsym.Cover("aborted")
}

func deliver(sg []*lib.SG, b int, m *messages.Message) {
	for i, x := range sg {
		if i != b {
			lib.Deliver(x.St, m)
		}
	}
}

// CheckResponse: the response is accepted exactly if it is the right one.
func CheckResponse() {
	vsym.MapOrder(vsym.Choose("order", 2))
	_, signers, _, secrets, pub := setup()
	msg := vsym.Bytes("message", 8)
	sg := lib.NewSign(signers, secrets, pub, msg, 0)
	sts := lib.SGStates(sg)
	any := vsym.Scalar("z")
	m2 := lib.Round(sts, lib.Round(sts, nil))
	b := vsym.Choose("bad", len(signers))
	other := m2[(b+1)%len(m2)].Sign2
	z := lib.CopyS(&m2[b].Sign2.Zi)
	honest := false
	switch vsym.Choose("kind", 4) {
	case 0:
		d := vsym.Scalar("delta")
		z = lib.SAdd(z, d)
		honest = lib.SZero(d)
	case 1:
		z = any
	case 2:
		z = lib.CopyS(&other.Zi)
	case 3:
		z = ristretto.NewScalar()
	}
	for i, m := range m2 {
		if i == b {
			m = messages.NewSign2(signers[b], z)
		}
		deliver(sg, b, m)
	}
	for i, x := range sg {
		if i == b {
			continue
		}
		x.St.ProcessAll()
		if honest {
			vsym.Assert(x.St.IsFinished() && x.St.Err() == nil, "honest-signer-not-blamed")
			vsym.Assert(x.Out.Signature != nil && pub.GroupKey.Verify(msg, x.Out.Signature), "signature-valid")
			vsym.Cover("completed")
		} else {
			aborted(x, signers[b])
		}
	}
}

// CheckCommitment: changed nonce commitments. The identity is refused at once;
// everything else leads to a response that does not fit.
func CheckCommitment() {
	vsym.MapOrder(vsym.Choose("order", 2))
	_, signers, _, secrets, pub := setup()
	msg := vsym.Bytes("message", 8)
	sg := lib.NewSign(signers, secrets, pub, msg, 0)
	sts := lib.SGStates(sg)
	m1 := lib.Round(sts, nil)
	b := vsym.Choose("bad", len(signers))
	D, E := lib.CopyE(&m1[b].Sign1.Di), lib.CopyE(&m1[b].Sign1.Ei)
	other := m1[(b+1)%len(m1)].Sign1
	kind := vsym.Choose("kind", 7)
	switch kind {
	case 0:
		d1, d2 := vsym.Scalar("delta"), vsym.Scalar("delta2")
		vsym.Assume(!lib.SZero(d1) || !lib.SZero(d2))
		D, E = lib.EAdd(D, lib.Base(d1)), lib.EAdd(E, lib.Base(d2))
	case 1:
		D = vsym.Element("D")
	case 2:
		E = vsym.Element("E")
	case 3:
		D, E = E, D
	case 4:
		D, E = lib.CopyE(&other.Di), lib.CopyE(&other.Ei)
	case 5: // cancel the other signer's commitments
		D, E = lib.ESub(vsym.Element("D"), &other.Di), lib.ESub(vsym.Element("E"), &other.Ei)
	case 6:
		D, E = vsym.Element("D"), vsym.Element("E")
	}
	vsym.Assume(!lib.EEq(D, &m1[b].Sign1.Di) || !lib.EEq(E, &m1[b].Sign1.Ei))
	identity := lib.EZero(D) || lib.EZero(E)
	z := vsym.Scalar("z")
	for i, m := range m1 {
		if i == b {
			m = messages.NewSign1(signers[b], D, E)
		}
		for j, x := range sg {
			if j != b || i != b {
				lib.Deliver(x.St, m)
			}
		}
	}
	var m2 []*messages.Message
	for i, x := range sg {
		out := x.St.ProcessAll()
		if identity && i != b {
			vsym.Assert(len(out) == 0, "no-response-for-identity-commitment")
			aborted(x, signers[b])
			vsym.Cover("identity")
		}
		m2 = append(m2, out...)
	}
	if identity {
		return
	}
	vsym.Assert(len(m2) == len(sg), "response-produced")
	for i, m := range m2 {
		if i == b && vsym.Choose("response", 2) == 1 {
			m = messages.NewSign2(signers[b], z)
		}
		deliver(sg, b, m)
	}
	for i, x := range sg {
		if i == b {
			continue
		}
		x.St.ProcessAll()
		aborted(x, signers[b])
	}
}

// CheckWrongShare: a signer holding any other share is named.
func CheckWrongShare() {
	_, signers, _, secrets, pub := setup()
	msg := vsym.Bytes("message", 8)
	b := vsym.Choose("bad", len(signers))
	id := signers[b]
	d := vsym.Scalar("delta")
	mine := map[party.ID]*eddsa.SecretShare{}
	for _, i := range signers {
		mine[i] = secrets[i]
	}
	mine[id] = eddsa.NewSecretShare(id, lib.SAdd(&secrets[id].Secret, d))
	sg := lib.NewSign(signers, mine, pub, msg, 0)
	sts := lib.SGStates(sg)
	m2 := lib.Round(sts, lib.Round(sts, nil))
	for _, m := range m2 {
		deliver(sg, -1, m)
	}
	for i, x := range sg {
		x.St.ProcessAll()
		if lib.SZero(d) {
			vsym.Assert(x.St.IsFinished() && x.St.Err() == nil && pub.GroupKey.Verify(msg, x.Out.Signature), "honest-signer-not-blamed")
			vsym.Cover("completed")
		} else if i != b {
			aborted(x, id)
		} else {
			vsym.Assert(x.Out.Signature == nil && x.St.Err() != nil, "no-invalid-signature")
		}
	}
}

// CheckTooFew: fewer signers than needed never produce a signature.
func CheckTooFew() {
	ids := sets[1+vsym.Choose("set", 3)]
	t := 2
	if len(ids) > 3 {
		t = 2 + vsym.Choose("t", 2)
	}
	_, secrets := helpers.GenerateSecrets(ids, party.Size(t))
	pub := helpers.GeneratePublic(party.Size(t), secrets)
	mask := 1 + vsym.Choose("signers", 1<<uint(len(ids))-1)
	vsym.Assume(lib.Bits(mask) <= t)
	signers := lib.Subset(ids, mask)
	msg := vsym.Bytes("message", 8)
	var sg []*lib.SG
	for _, id := range signers {
		s, o, ok := lib.TrySign(signers, secrets[id], pub, msg)
		if !ok {
			continue
		}
		sg = append(sg, &lib.SG{ID: id, St: s, Out: o})
	}
	sts := lib.SGStates(sg)
	in := lib.Loose(sts, nil)
	for r := 0; r < 4; r++ {
		in = lib.Loose(sts, in)
	}
	for _, x := range sg {
		vsym.Assert(x.Out.Signature == nil, "too-few-signers-no-signature")
		vsym.Assert(!x.St.IsFinished() || x.St.Err() != nil, "too-few-signers-error")
	}
	vsym.Cover("too few")
}

// CheckTwoBad: with two misbehaving signers one of them is named.
func CheckTwoBad() {
	vsym.MapOrder(vsym.Choose("order", 2))
	ids := party.IDSlice{1, 2, 3, 4}
	_, secrets := helpers.GenerateSecrets(ids, 2)
	pub := helpers.GeneratePublic(2, secrets)
	msg := vsym.Bytes("message", 8)
	sg := lib.NewSign(ids, secrets, pub, msg, 0)
	sts := lib.SGStates(sg)
	m2 := lib.Round(sts, lib.Round(sts, nil))
	sum := ristretto.NewScalar()
	for _, m := range m2 {
		if m.From > 2 {
			d := vsym.Scalar("delta")
			if m.From == 4 && vsym.Choose("cancel", 2) == 1 {
				// the two errors cancel in the sum
				d = lib.SSub(ristretto.NewScalar(), sum)
			}
			vsym.Assume(!lib.SZero(d))
			sum = lib.SAdd(sum, d)
			m = messages.NewSign2(m.From, lib.SAdd(&m.Sign2.Zi, d))
		}
		lib.Deliver(sg[0].St, m)
		lib.Deliver(sg[1].St, m)
	}
	for _, x := range sg[:2] {
		x.St.ProcessAll()
		vsym.Assert(x.St.IsFinished() && x.St.Err() != nil, "cheating-detected")
		c := lib.Blamed(x.St.Err())
		vsym.Assert(c == 3 || c == 4, "honest-signer-not-blamed")
		vsym.Assert(x.Out.Signature == nil, "no-signature-after-error")
	}
	vsym.Cover("two")
}

// CheckMany: one wrong response among many signers.
func CheckMany() {
	n := vsym.Count("n", lib.Limit(), 8)
	ids := lib.Many(n)
	_, secrets := helpers.GenerateSecrets(ids, 2)
	pub := helpers.GeneratePublic(2, secrets)
	msg := vsym.Bytes("message", 8)
	sg := lib.NewSign(ids, secrets, pub, msg, 0)
	sts := lib.SGStates(sg)
	m2 := lib.Round(sts, lib.Round(sts, nil))
	me := sg[vsym.Choose("me", 2)*(n-1)]
	b := 1 + vsym.Choose("bad", 2)*(n-3)
	delta := vsym.Scalar("delta")
	for i, m := range m2 {
		if i == b {
			m = messages.NewSign2(ids[b], lib.SAdd(&m.Sign2.Zi, delta))
		}
		lib.Deliver(me.St, m)
	}
	me.St.ProcessAll()
	if lib.SZero(delta) {
		vsym.Assert(me.St.IsFinished() && me.St.Err() == nil, "honest-signer-not-blamed")
		vsym.Assert(me.Out.Signature != nil && pub.GroupKey.Verify(msg, me.Out.Signature), "signature-valid")
	} else {
		aborted(me, ids[b])
	}
	vsym.Cover("many")
}
