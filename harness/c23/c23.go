// Package c23: the dealer and the party-list helpers.
package c23

import (
	"bytes"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "party lists: every n up to 40 (thorough: 400), and 65534, 65535; dealing: 1..4 arbitrary distinct IDs in any order, lists of up to 10 IDs, of 12 and the numbers up to 36 (thorough 70) that the code treats specially and 258, every threshold (arbitrary 16-bit values, fitting or not), every set of threshold+1 shares; driving by encoded messages: key generation and signing of 2..3 parties, one step of one party given its messages in any order with one altered arbitrarily, duplicated, garbled, foreign or left out; one party that lags behind and gets the messages of both rounds in one call, in any order"

// CheckList: the generated list of n parties is 1..n.
func CheckList() {
	n := party.Size(65534 + vsym.Choose("long", 2))
	if vsym.Choose("short", 2) == 1 {
		n = party.Size(vsym.U16("n"))
		limit := 40
		if vsym.Tier() == 1 {
			limit = 400
		}
		vsym.Assume(int(n) <= limit)
	}
	var l party.IDSlice
	if vsym.Bool("sorted") {
		l = helpers.GenerateSet(n)
	} else {
		l = helpers.NewPartySlice(n)
	}
	vsym.Assert(len(l) == int(n), "list-length")
	for i := range l {
		vsym.Assert(int(l[i]) == i+1, "list-is-1-to-n")
	}
	if n > 60000 {
		vsym.Cover("long-list")
	} else {
		vsym.Cover("list")
	}
}

// dealt checks a dealing.
func dealt(ids party.IDSlice, t party.Size, secret *ristretto.Scalar, shares map[party.ID]*eddsa.SecretShare, subsets, known bool) {
	n := len(ids)
	vsym.Assert(len(shares) == n, "one-share-per-party")
	sorted := party.NewIDSlice(ids.Copy())
	for _, id := range ids {
		s := shares[id]
		vsym.Assert(s != nil && s.ID == id, "share-carries-its-id")
		vsym.Assert(lib.EEq(&s.Public, lib.Base(&s.Secret)), "share-carries-its-public-key")
	}
	check := func(sub party.IDSlice) {
		var ys []*ristretto.Scalar
		for _, id := range sub {
			ys = append(ys, lib.CopyS(&shares[id].Secret))
		}
		vsym.Assert(lib.SEq(lib.Interpolate(sub, ys, ristretto.NewScalar()), secret), "shares-reconstruct-the-secret")
	}
	if subsets {
		for mask := 0; mask < 1<<uint(n); mask++ {
			if lib.Bits(mask) == int(t)+1 {
				check(lib.Subset(ids, mask))
			}
		}
	} else {
		check(ids[:t+1])
		check(ids[n-int(t)-1:])
	}
	if known {
		// no smaller set does
		vals := []interface{}{secret}
		for _, id := range ids[:t] {
			vals = append(vals, &shares[id].Secret)
		}
		vsym.Independent("smaller-sets-know-nothing", vals...)
	}
	pub := helpers.GeneratePublic(t, shares)
	vsym.Assert(pub.Threshold == t, "public-threshold")
	vsym.Assert(lib.SameIDs(pub.PartyIDs, sorted), "public-party-list")
	vsym.Assert(pub.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(lib.Base(secret))), "group-key-of-the-secret")
	vsym.Assert(len(pub.Shares) == n, "public-shares")
	for _, id := range ids {
		vsym.Assert(pub.Shares[id] != nil && lib.EEq(pub.Shares[id], lib.Base(&shares[id].Secret)), "public-shares")
		vsym.Assert(shares[id].ID == id, "shares-untouched")
	}
}

// CheckDealer: arbitrary IDs in any order.
func CheckDealer() {
	n := 1 + vsym.Choose("n", 3)
	if vsym.Tier() == 1 {
		n = 1 + vsym.Choose("n4", 4)
	}
	ids := make(party.IDSlice, n)
	for i := range ids {
		ids[i] = party.ID(vsym.U16("id"))
		vsym.Assume(ids[i] != 0)
		for j := 0; j < i; j++ {
			vsym.Assume(ids[i] != ids[j])
		}
	}
	t := party.Size(vsym.U16("t"))
	keep := ids.Copy()
	var secret *ristretto.Scalar
	var shares map[party.ID]*eddsa.SecretShare
	refused := vsym.Panics(func() { secret, shares = helpers.GenerateSecrets(ids, t) })
	vsym.Assert(lib.SameIDs(ids, keep), "list-untouched")
	vsym.Assert(refused == (int(t) >= n), "threshold-that-does-not-fit-refused")
	if refused {
		vsym.Cover("refused")
		return
	}
	dealt(ids, t, secret, shares, true, false)
	vsym.Cover("dealt")
}

// CheckLists: longer lists.
func CheckLists() {
	ids := lib.IDSets[vsym.Choose("ids", len(lib.IDSets))].Copy()
	t := party.Size(vsym.Choose("t", len(ids)))
	secret, shares := helpers.GenerateSecrets(ids, t)
	dealt(ids, t, secret, shares, len(ids) <= 5, true)
	vsym.Cover("dealt")
}

// CheckPublic: public material for any shares; a threshold that does not fit
// is refused.
func CheckPublic() {
	n := vsym.Choose("n", 5)
	ids := lib.IDSets[9][:n]
	shares := map[party.ID]*eddsa.SecretShare{}
	var ys []*ristretto.Scalar
	for _, id := range ids {
		s := vsym.Scalar("share")
		ys = append(ys, s)
		shares[id] = eddsa.NewSecretShare(id, s)
	}
	t := party.Size(vsym.U16("t"))
	var pub *eddsa.Public
	refused := vsym.Panics(func() { pub = helpers.GeneratePublic(t, shares) })
	vsym.Assert(refused == (int(t) >= n), "threshold-that-does-not-fit-refused")
	if refused {
		vsym.Cover("refused")
		return
	}
	vsym.Assert(pub.Threshold == t && lib.SameIDs(pub.PartyIDs, ids) && len(pub.Shares) == n, "public-material")
	gk := lib.Base(lib.Interpolate(ids, ys, ristretto.NewScalar()))
	vsym.Assert(pub.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(gk)), "group-key-of-the-secret")
	for i, id := range ids {
		vsym.Assert(lib.EEq(pub.Shares[id], lib.Base(ys[i])), "public-shares")
		vsym.Assert(lib.SEq(&shares[id].Secret, ys[i]) && shares[id].ID == id, "shares-untouched")
	}
	vsym.Cover("public")
}

// ---- driving a party ----

// pair is one party, driven by encoded messages and directly.
type pair struct {
	a, b       *state.State
	aOut, bOut func() []byte // what the output holds
}

func direct(in [][]byte, s *state.State) ([][]byte, error) {
	for _, b := range in {
		var m messages.Message
		if err := m.UnmarshalBinary(b); err != nil {
			return nil, err
		}
		if err := s.HandleMessage(&m); err != nil {
			return nil, err
		}
	}
	var out [][]byte
	for _, m := range s.ProcessAll() {
		b, err := m.MarshalBinary()
		vsym.Assert(err == nil, "honest-message-marshals")
		out = append(out, b)
	}
	if s.IsFinished() && s.Err() != nil {
		return nil, s.Err()
	}
	return out, nil
}

// step drives both and compares. It returns what was sent.
func (p *pair) step(in [][]byte, draws []*ristretto.Scalar) ([][]byte, bool) {
	var keep [][]byte
	for _, b := range in {
		keep = append(keep, append([]byte{}, b...))
	}
	vsym.NextRand(draws...)
	out1, err1 := helpers.PartyRoutine(in, p.a)
	vsym.NoMoreRand()
	vsym.NextRand(draws...)
	out2, err2 := direct(keep, p.b)
	vsym.NoMoreRand()
	vsym.Assert((err1 == nil) == (err2 == nil), "same-failure")
	vsym.Assert(p.a.IsFinished() == p.b.IsFinished(), "same-progress")
	vsym.Assert((p.a.Err() == nil) == (p.b.Err() == nil) && lib.Blamed(p.a.Err()) == lib.Blamed(p.b.Err()), "same-blame")
	if p.a.Err() != nil {
		// the caller can tell who is to blame
		vsym.Assert(err1 != nil && lib.Blamed(err1) == lib.Blamed(p.a.Err()), "same-blame")
	}
	vsym.Assert(len(out1) == len(out2), "same-messages")
	for i := range out1 {
		vsym.Assert(bytes.Equal(out1[i], out2[i]), "same-messages")
	}
	vsym.Assert(bytes.Equal(p.aOut(), p.bOut()), "same-output")
	for i := range in {
		vsym.Assert(bytes.Equal(in[i], keep[i]), "input-untouched")
	}
	return out1, err1 == nil
}

func keygenPair(id party.ID, ids party.IDSlice, t party.Size) *pair {
	mk := func() (*state.State, func() []byte) {
		st, out, err := frost.NewKeygenState(id, ids.Copy(), t, 0)
		vsym.Assert(err == nil, "keygen-setup-accepted")
		return st, func() []byte { return keygenOut(out) }
	}
	p := &pair{}
	p.a, p.aOut = mk()
	p.b, p.bOut = mk()
	return p
}

func keygenOut(o *keygen.Output) []byte {
	if o.SecretKey == nil || o.Public == nil {
		return nil
	}
	b := append(o.SecretKey.Secret.Bytes(), o.SecretKey.ID.Bytes()...)
	b = append(b, o.Public.GroupKey.ToEd25519()...)
	for _, id := range o.Public.PartyIDs {
		b = append(b, id.Bytes()...)
		b = append(b, o.Public.Shares[id].Bytes()...)
	}
	return append(b, o.Public.Threshold.Bytes()...)
}

func signOut(o *sign.Output) []byte {
	if o.Signature == nil {
		return nil
	}
	return o.Signature.ToEd25519()
}

// spoil changes the messages for one step of one party.
func spoil(in [][]byte, ids party.IDSlice, self party.ID) [][]byte {
	r := append([][]byte{}, in...)
	if len(r) == 2 && vsym.Bool("swap") {
		r[0], r[1] = r[1], r[0]
	}
	if len(r) == 0 {
		return r
	}
	i := vsym.Choose("which", len(r))
	var m messages.Message
	vsym.Assert(m.UnmarshalBinary(r[i]) == nil, "honest-message-unmarshals")
	put := func() {
		b, err := m.MarshalBinary()
		vsym.Assert(err == nil, "honest-message-marshals")
		r[i] = b
	}
	d := vsym.Scalar("delta")
	switch vsym.Choose("spoil", 7) {
	case 0: // another value
		switch m.Type {
		case messages.MessageTypeKeyGen1:
			m.KeyGen1.Proof.R.Add(&m.KeyGen1.Proof.R, d)
		case messages.MessageTypeKeyGen2:
			m.KeyGen2.Share.Add(&m.KeyGen2.Share, d)
		case messages.MessageTypeSign1:
			m.Sign1.Di.Add(&m.Sign1.Di, lib.Base(d))
		case messages.MessageTypeSign2:
			m.Sign2.Zi.Add(&m.Sign2.Zi, d)
		}
		put()
	case 1: // twice
		r = append(r, r[i])
	case 2: // garbled
		r[i] = r[i][:len(r[i])-1]
	case 3: // any type byte
		b := append([]byte{}, r[i]...)
		b[0] = vsym.U8("type")
		r[i] = b
	case 4: // any sender
		m.From = party.ID(vsym.U16("from"))
		vsym.Assume(m.From != 0 && m.From != m.To)
		put()
	case 5: // missing
		r = append(r[:i:i], r[i+1:]...)
	}
	return r
}

// run drives all parties to the end; one party gets something else in one
// step.
func run(ids party.IDSlice, ps map[party.ID]*pair, draws int) {
	at, step := ids[vsym.Choose("spoil-at", len(ids))], 1+vsym.Choose("spoil-step", 2)
	boxes := map[party.ID][][]byte{}
	dead := false
	for k := 0; k < 3 && !dead; k++ {
		next := map[party.ID][][]byte{}
		for _, id := range ids {
			in := boxes[id]
			if k == step && id == at {
				in = spoil(in, ids, id)
			}
			var ds []*ristretto.Scalar
			if k == 0 {
				for i := 0; i < draws; i++ {
					ds = append(ds, vsym.Scalar("draw"))
					vsym.Assume(!lib.SZero(ds[i]))
				}
			}
			out, ok := ps[id].step(in, ds)
			if !ok || k == step && id == at {
				dead = true
				if ok {
					vsym.Cover("spoiled-step")
				} else {
					vsym.Cover("failed-step")
				}
				break
			}
			for _, b := range out {
				var h messages.Message
				vsym.Assert(h.UnmarshalBinary(b) == nil, "honest-message-unmarshals")
				for _, to := range ids {
					if to != id && (h.To == 0 || h.To == to) {
						next[to] = append(next[to], b)
					}
				}
			}
		}
		boxes = next
	}
}

func lists() party.IDSlice {
	if vsym.Choose("n", 2) == 0 {
		return party.IDSlice{255, 256}
	}
	return party.IDSlice{1, 256, 65535}
}

// CheckDriveKeygen: key generation.
func CheckDriveKeygen() {
	ids := lists()
	t := party.Size(1)
	ps := map[party.ID]*pair{}
	for _, id := range ids {
		ps[id] = keygenPair(id, ids, t)
	}
	run(ids, ps, int(t)+2)
	vsym.Cover("keygen")
}

func signPairs(ids party.IDSlice) map[party.ID]*pair {
	t := party.Size(len(ids) - 1)
	_, shares := helpers.GenerateSecrets(ids, t)
	pub := helpers.GeneratePublic(t, shares)
	ps := map[party.ID]*pair{}
	for _, id := range ids {
		mk := func() (*state.State, func() []byte) {
			st, out, err := frost.NewSignState(ids.Copy(), shares[id], pub, []byte("message"), 0)
			vsym.Assert(err == nil, "sign-setup-accepted")
			return st, func() []byte { return signOut(out) }
		}
		p := &pair{}
		p.a, p.aOut = mk()
		p.b, p.bOut = mk()
		ps[id] = p
	}
	return ps
}

// CheckDriveSign: signing.
func CheckDriveSign() {
	ids := lists()
	run(ids, signPairs(ids), 2)
	vsym.Cover("sign")
}

// late drives everybody while one party gets all it is sent in one call, in
// any order, so that it runs through both rounds at once.
func late(ids party.IDSlice, ps map[party.ID]*pair, draws int) {
	l := ids[vsym.Choose("late", len(ids))]
	boxes := map[party.ID][][]byte{}
	for k := 0; k < 4; k++ {
		next := map[party.ID][][]byte{}
		for _, id := range ids {
			in := boxes[id]
			if id == l && k == 1 {
				next[id] = append(next[id], in...) // later
				continue
			}
			if id == l && k == 2 {
				var mixed [][]byte
				for len(in) > 0 {
					j := 0
					if len(in) > 1 {
						j = vsym.Choose("next", len(in))
					}
					mixed = append(mixed, in[j])
					in = append(in[:j:j], in[j+1:]...)
				}
				in = mixed
			}
			if k == 3 && id == l || k == 2 && id != l {
				if id == l {
					vsym.Assert(len(in) == 0, "same-messages")
				} else {
					next[id] = append(next[id], in...)
				}
				continue
			}
			var ds []*ristretto.Scalar
			if k == 0 {
				for i := 0; i < draws; i++ {
					ds = append(ds, vsym.Scalar("draw"))
					vsym.Assume(!lib.SZero(ds[i]))
				}
			}
			out, ok := ps[id].step(in, ds)
			vsym.Assert(ok, "honest-run-succeeds")
			vsym.Assert(k == 0 || len(out) > 0 || id != l, "messages-of-the-round-returned")
			for _, b := range out {
				var h messages.Message
				vsym.Assert(h.UnmarshalBinary(b) == nil, "honest-message-unmarshals")
				for _, to := range ids {
					if to != id && (h.To == 0 || h.To == to) {
						next[to] = append(next[to], b)
					}
				}
			}
		}
		boxes = next
	}
	for _, id := range ids {
		vsym.Assert(ps[id].a.IsFinished() && ps[id].a.Err() == nil, "honest-run-succeeds")
	}
}

// CheckLateKeygen: key generation with a party that lags behind.
func CheckLateKeygen() {
	ids := lists()
	ps := map[party.ID]*pair{}
	for _, id := range ids {
		ps[id] = keygenPair(id, ids, 1)
	}
	late(ids, ps, 3)
	vsym.Cover("keygen")
}

// CheckLateSign: signing with a party that lags behind.
func CheckLateSign() {
	ids := lists()
	late(ids, signPairs(ids), 2)
	vsym.Cover("sign")
}

// CheckMany: more parties.
func CheckMany() {
	vsym.Deep()
	n := vsym.Count("n", lib.Limit(), 12, 258)
	t := party.Size(vsym.Count("t", n-1, 1, n-1))
	ids := lib.Many(n)
	secret, shares := helpers.GenerateSecrets(ids, t)
	dealt(ids, t, secret, shares, false, false)
	vsym.Cover("many")
}

// CheckListHistory: what was generated before, and what became of it, does not
// matter.
func CheckListHistory() {
	limit := 12
	if vsym.Tier() == 1 {
		limit = 60
	}
	n := vsym.U16("n")
	vsym.Assume(n >= 1 && int(n) <= limit)
	gen := func(sorted bool) party.IDSlice {
		if sorted {
			return helpers.GenerateSet(party.Size(n))
		}
		return helpers.NewPartySlice(party.Size(n))
	}
	first := gen(vsym.Bool("sorted"))
	i := vsym.U16("changed")
	vsym.Assume(i < n)
	first[i] = party.ID(vsym.U16("id"))
	kept := first[i]
	second := gen(vsym.Bool("again-sorted"))
	vsym.Assert(len(second) == int(n), "list-length")
	for j := range second {
		vsym.Assert(int(second[j]) == j+1, "list-is-1-to-n")
	}
	vsym.Assert(first[i] == kept, "earlier-list-kept")
	vsym.Cover("history")
}

// CheckDealtTwice: two dealings share nothing.
func CheckDealtTwice() {
	ids := lib.IDSets[vsym.Choose("ids", 4)].Copy()
	t := party.Size(vsym.Choose("t", len(ids)))
	order := ids.Copy()
	s1, sh1 := helpers.GenerateSecrets(ids, t)
	p1 := helpers.GeneratePublic(t, sh1)
	s2, sh2 := helpers.GenerateSecrets(ids, t)
	p2 := helpers.GeneratePublic(t, sh2)
	vsym.Assert(lib.SameIDs(ids, order), "list-untouched")
	dealt(ids, t, s1, sh1, true, true)
	dealt(ids, t, s2, sh2, true, true)
	vsym.Independent("dealings-independent", s1, s2)
	// changing the second leaves the first alone
	for _, id := range ids {
		sh2[id].Secret.Add(&sh2[id].Secret, lib.One())
		p2.Shares[id].Add(p2.Shares[id], ristretto.NewGeneratorElement())
	}
	ids[0] = 0
	p2.PartyIDs[0] = 0
	delete(sh2, order[0])
	delete(p2.Shares, order[0])
	s2.Add(s2, lib.One())
	dealt(order, t, s1, sh1, false, false)
	vsym.Assert(lib.SameIDs(p1.PartyIDs, party.NewIDSlice(order.Copy())) && len(p1.Shares) == len(order), "earlier-dealing-kept")
	for _, id := range order {
		vsym.Assert(lib.EEq(p1.Shares[id], lib.Base(&sh1[id].Secret)), "earlier-dealing-kept")
	}
	vsym.Assert(p1.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(lib.Base(s1))), "earlier-dealing-kept")
	vsym.Cover("twice")
}
