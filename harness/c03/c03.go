// Package c03: key generation against misbehaving parties.
package c03

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "n in 2..4 (quick) or 2..5, every threshold, one or two misbehaving parties, one kind of deviation per run: any polynomial with any shares, shifted constant, shifted proof, commitments of the wrong degree (-1, +1, +2), another party's payload; all deviations are symbolic; one wrong share among 9 parties and the numbers up to 36 (thorough 70) that the code treats specially"

const Assumptions = "broadcasts reach every party unchanged"

var sets = []party.IDSlice{{1, 2}, {1, 2, 3}, {255, 256, 257}, {1, 2, 3, 4}, {3, 128, 255, 32768, 65535}}

func pick() party.IDSlice {
	n := 4
	if vsym.Tier() > 0 {
		n = 5
	}
	return sets[vsym.Choose("set", n)]
}

// aborted: the party stopped, blames culprit, and has no output.
func aborted(x *lib.KG, culprit party.ID) {
	vsym.Assert(x.St.IsFinished(), "cheating-detected")
	err := x.St.WaitForError()
	vsym.Assert(err != nil, "cheating-reported")
	vsym.Assert(lib.Blamed(err) == culprit, "culprit-named")
	vsym.Assert(x.Out.Public == nil && x.Out.SecretKey == nil, "no-output-after-error")
	vsym.Cover("aborted")
}

// completed: the party's output is consistent with that of every other party
// that completed.
func completed(k []*lib.KG, ids party.IDSlice, t party.Size) {
	var ref *lib.KG
	for _, x := range k {
		if !x.St.IsFinished() || x.St.Err() != nil {
			continue
		}
		vsym.Assert(x.Out.Public != nil && x.Out.SecretKey != nil, "output-present")
		p := x.Out.Public
		vsym.Assert(lib.SameIDs(p.PartyIDs, ids) && p.Threshold == t && len(p.Shares) == len(ids), "output-parameters")
		vsym.Assert(lib.EEq(lib.Base(&x.Out.SecretKey.Secret), p.Shares[x.ID]), "share-matches-public-share")
		if ref == nil {
			ref = x
			// the public shares lie on a polynomial of degree t through the group key
			xs := lib.IDScalars(ids[:t+1])
			for i := 0; i <= len(ids); i++ {
				at, want := ristretto.NewScalar(), p.GroupKey
				if i > 0 {
					at = lib.IDScalar(ids[i-1])
				}
				sum := ristretto.NewIdentityElement()
				for j := range xs {
					sum = lib.EAdd(sum, lib.EMul(lib.RefLagrange(xs, j, at), p.Shares[ids[j]]))
				}
				if i == 0 {
					vsym.Assert(lib.BytesEq(want.ToEd25519(), sum.BytesEd25519()), "group-key-on-polynomial")
				} else {
					vsym.Assert(lib.EEq(sum, p.Shares[ids[i-1]]), "public-shares-on-polynomial")
				}
			}
		} else {
			vsym.Assert(p.Equal(ref.Out.Public), "outputs-agree")
		}
		vsym.Cover("completed")
	}
}

func broadcast(k []*lib.KG, skip map[party.ID]bool, m *messages.Message) {
	for _, x := range k {
		if !skip[x.ID] {
			lib.Deliver(x.St, m)
		}
	}
}

func process(k []*lib.KG, skip map[party.ID]bool) []*messages.Message {
	var out []*messages.Message
	for _, x := range k {
		if !skip[x.ID] {
			out = append(out, x.St.ProcessAll()...)
		}
	}
	return out
}

// CheckFirstRound: a broadcast that does not prove knowledge of its constant,
// or has the wrong degree, stops everybody and names the sender.
func CheckFirstRound() {
	vsym.MapOrder(vsym.Choose("order", 2))
	ids := pick()
	t := party.Size(1 + vsym.Choose("t", len(ids)-1))
	k := lib.NewKeygen(ids, t, 0)
	m1 := lib.Round(lib.KGStates(k), nil)
	b := vsym.Choose("bad", len(ids))
	bad := map[party.ID]bool{ids[b]: true}
	for i, m := range m1 {
		if i != b {
			broadcast(k, bad, m)
		}
	}
	own := m1[b].KeyGen1
	cs := lib.Coefficients(own.Commitments)
	S, R := lib.CopyS(&own.Proof.S), lib.CopyS(&own.Proof.R)
	switch vsym.Choose("kind", 8) {
	case 0:
		d := vsym.Scalar("delta")
		vsym.Assume(!lib.SZero(d))
		cs[0] = lib.EAdd(cs[0], lib.Base(d))
	case 1:
		d := vsym.Scalar("delta")
		vsym.Assume(!lib.SZero(d))
		S = lib.SAdd(S, d)
	case 2:
		d := vsym.Scalar("delta")
		vsym.Assume(!lib.SZero(d))
		R = lib.SAdd(R, d)
	case 3: // longer
		cs = append(cs, vsym.Element("extra"))
	case 4: // longer, extra coefficient zero
		cs = append(cs, ristretto.NewIdentityElement())
	case 5: // longer by two
		cs = append(cs, vsym.Element("extra"), vsym.Element("extra"))
	case 6: // shorter
		cs = cs[:len(cs)-1]
	case 7: // copy of another party's broadcast
		o := m1[(b+1)%len(ids)].KeyGen1
		cs = lib.Coefficients(o.Commitments)
		S, R = lib.CopyS(&o.Proof.S), lib.CopyS(&o.Proof.R)
	}
	broadcast(k, bad, messages.NewKeyGen1(ids[b], lib.Schnorr(S, R), lib.ExponentOf(cs)))
	out := process(k, bad)
	vsym.Assert(len(out) == 0, "no-share-sent-after-error")
	for i, x := range k {
		if i != b {
			aborted(x, ids[b])
		}
	}
}

// CheckShares: a party that commits to any polynomial and sends any shares.
// Exactly the parties with an inconsistent share stop; the others agree.
func CheckShares() {
	vsym.MapOrder(vsym.Choose("order", 2))
	ids := pick()
	t := party.Size(1 + vsym.Choose("t", len(ids)-1))
	k := lib.NewKeygen(ids, t, 0)
	m1 := lib.Round(lib.KGStates(k), nil)
	b := vsym.Choose("bad", len(ids))
	bad := map[party.ID]bool{ids[b]: true}
	// any polynomial with the proven constant
	cs := lib.Coefficients(m1[b].KeyGen1.Commitments)
	var delta []*ristretto.Scalar
	for i := 1; i < len(cs); i++ {
		d := vsym.Scalar("delta")
		delta = append(delta, d)
		cs[i] = lib.EAdd(cs[i], lib.Base(d))
	}
	for i, m := range m1 {
		if i != b {
			for _, x := range k {
				lib.Deliver(x.St, m)
			}
		}
	}
	broadcast(k, bad, messages.NewKeyGen1(ids[b], m1[b].KeyGen1.Proof, lib.ExponentOf(cs)))
	m2 := process(k, nil)
	for _, x := range k {
		vsym.Assert(x.St.Err() == nil, "proven-constant-accepted")
	}
	for _, m := range m2 {
		for i, x := range k {
			if i == b || m.To != x.ID {
				continue
			}
			if m.From != ids[b] {
				lib.Deliver(x.St, m)
				continue
			}
			lib.Deliver(x.St, messages.NewKeyGen2(ids[b], x.ID, lib.SAdd(&m.KeyGen2.Share, vsym.Scalar("share delta"+x.ID.String()))))
		}
	}
	_ = process(k, bad)
	for i, x := range k {
		if i == b {
			continue
		}
		vsym.Assert(x.St.IsFinished(), "party-finishes")
		if x.St.Err() != nil {
			aborted(x, ids[b])
		}
	}
	var good []*lib.KG
	for i, x := range k {
		if i != b {
			good = append(good, x)
		}
	}
	completed(good, ids, t)
}

// CheckShareVerdict: the share is accepted exactly if it is consistent.
func CheckShareVerdict() {
	ids := sets[vsym.Choose("set", 3)]
	t := party.Size(1 + vsym.Choose("t", len(ids)-1))
	k := lib.NewKeygen(ids, t, 0)
	sts := lib.KGStates(k)
	m1 := lib.Round(sts, nil)
	m2 := lib.Round(sts, m1)
	d := vsym.Scalar("delta")
	for _, m := range m2 {
		if m.To != k[0].ID {
			continue
		}
		if m.From == k[1].ID {
			m = messages.NewKeyGen2(m.From, m.To, lib.SAdd(&m.KeyGen2.Share, d))
		}
		lib.Deliver(k[0].St, m)
	}
	k[0].St.ProcessAll()
	if lib.SZero(d) {
		vsym.Assert(k[0].St.IsFinished() && k[0].St.Err() == nil, "honest-party-not-blamed")
		vsym.Cover("accepted")
	} else {
		aborted(k[0], k[1].ID)
	}
}

// CheckTwoBad: with two misbehaving parties one of them is named.
func CheckTwoBad() {
	vsym.MapOrder(vsym.Choose("order", 2))
	ids := party.IDSlice{1, 2, 3, 4}
	t := party.Size(1 + vsym.Choose("t", 3))
	k := lib.NewKeygen(ids, t, 0)
	sts := lib.KGStates(k)
	m1 := lib.Round(sts, nil)
	first := vsym.Choose("round", 2) == 0
	if first {
		for _, m := range m1 {
			if m.From > 2 {
				d := vsym.Scalar("delta")
				vsym.Assume(!lib.SZero(d))
				p := lib.Schnorr(&m.KeyGen1.Proof.S, lib.SAdd(&m.KeyGen1.Proof.R, d))
				m = messages.NewKeyGen1(m.From, p, m.KeyGen1.Commitments)
			}
			lib.Deliver(k[0].St, m)
			lib.Deliver(k[1].St, m)
		}
	} else {
		m2 := lib.Round(sts, m1)
		for _, m := range m2 {
			if m.To > 2 {
				continue
			}
			if m.From > 2 {
				d := vsym.Scalar("delta")
				vsym.Assume(!lib.SZero(d))
				m = messages.NewKeyGen2(m.From, m.To, lib.SAdd(&m.KeyGen2.Share, d))
			}
			lib.Deliver(k[m.To-1].St, m)
		}
	}
	for _, x := range k[:2] {
		x.St.ProcessAll()
		vsym.Assert(x.St.IsFinished() && x.St.Err() != nil, "cheating-detected")
		c := lib.Blamed(x.St.Err())
		vsym.Assert(c == 3 || c == 4, "honest-party-not-blamed")
		vsym.Assert(x.Out.Public == nil && x.Out.SecretKey == nil, "no-output-after-error")
	}
	vsym.Cover("two")
}

var _ = state.NewError

// CheckMany: one wrong share among many parties.
func CheckMany() {
	n := vsym.Count("n", lib.Limit(), 9)
	t := vsym.Count("t", n-1, 2)
	ids := lib.Many(n)
	k := lib.NewKeygen(ids, party.Size(t), 0)
	me := k[vsym.Choose("me", 2)*(n-1)]
	b := (1 + vsym.Choose("bad", 2)*(n-3)) % n
	var m1, m2 []*messages.Message
	for _, x := range k {
		m1 = append(m1, x.St.ProcessAll()...)
	}
	for _, x := range k {
		for _, m := range m1 {
			if m.From != x.ID {
				lib.Deliver(x.St, m)
			}
		}
		for _, m := range x.St.ProcessAll() {
			if m.To == me.ID {
				m2 = append(m2, m)
			}
		}
	}
	delta := vsym.Scalar("delta")
	for _, m := range m2 {
		if m.From == ids[b] {
			m = messages.NewKeyGen2(m.From, m.To, lib.SAdd(&m.KeyGen2.Share, delta))
		}
		lib.Deliver(me.St, m)
	}
	me.St.ProcessAll()
	if lib.SZero(delta) {
		completed([]*lib.KG{me}, ids, party.Size(t))
		vsym.Assert(me.St.IsFinished() && me.St.Err() == nil, "consistent-share-accepted")
	} else {
		aborted(me, ids[b])
	}
	vsym.Cover("many")
}
