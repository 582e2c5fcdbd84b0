// Package c19: parties share no mutable state.
package c19

import (
	"bytes"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "2..3 parties in one process, messages passed by reference; every order in which the parties take what has been sent to them and process it; at most one party aborting at any of its steps; inputs changed after setup and outputs changed as soon as they are there"

const Assumptions = "the caller leaves a message alone until it has been processed by all its receivers; a receiver may erase the secret share addressed to it"

// post is the mail in transit, by reference.
type post struct {
	sent   []*messages.Message
	bytes  [][]byte
	taken  map[party.ID]int
	got    map[*messages.Message]bool // delivered shares
	broken party.ID                   // this party gets one message corrupted
	typ    messages.MessageType       // of this type
}

func (p *post) send(ms []*messages.Message) {
	for i, m := range ms {
		b, err := m.MarshalBinary()
		vsym.Assert(err == nil, "honest-message-marshals")
		p.sent = append(p.sent, m)
		p.bytes = append(p.bytes, b)
		ms[i] = nil // the slice is the caller's
	}
}

// corrupt is a bad copy of a message.
func corrupt(m *messages.Message) *messages.Message {
	c := lib.Wire(m)
	one := lib.One()
	switch c.Type {
	case messages.MessageTypeKeyGen1:
		c.KeyGen1.Proof.S.Add(&c.KeyGen1.Proof.S, one)
	case messages.MessageTypeKeyGen2:
		c.KeyGen2.Share.Add(&c.KeyGen2.Share, one)
	case messages.MessageTypeSign1:
		c.Sign1.Di.Set(ristretto.NewIdentityElement())
	case messages.MessageTypeSign2:
		c.Sign2.Zi.Add(&c.Sign2.Zi, one)
	}
	return c
}

// step lets a party take what there is for it and process it. It reports
// whether there was anything.
func (p *post) step(id party.ID, st *state.State) bool {
	first := p.taken[id] == 0
	some := first
	if first {
		p.taken[id] = 1
	}
	for ; p.taken[id]-1 < len(p.sent); p.taken[id]++ {
		m := p.sent[p.taken[id]-1]
		if m.From == id || m.To != 0 && m.To != id {
			_ = st.HandleMessage(m) // not for us
			continue
		}
		some = true
		if id == p.broken && m.Type == p.typ {
			m = corrupt(m)
			p.typ = messages.MessageTypeNone
		} else if m.To == id {
			p.got[m] = true
		}
		_ = st.HandleMessage(m)
	}
	p.send(st.ProcessAll())
	return some
}

// unchanged checks everything sent.
func (p *post) unchanged() {
	for i, m := range p.sent {
		if p.got[m] {
			continue
		}
		b, err := m.MarshalBinary()
		vsym.Assert(err == nil && bytes.Equal(b, p.bytes[i]), "sent-message-unchanged")
	}
}

// run schedules the parties until there is nothing left to do; done is called
// after every step of a party.
func (p *post) run(ids party.IDSlice, sts map[party.ID]*state.State, done func(party.ID)) {
	p.taken = map[party.ID]int{}
	p.got = map[*messages.Message]bool{}
	for {
		var ready []party.ID
		for _, id := range ids {
			if p.work(id) {
				ready = append(ready, id)
			}
		}
		if len(ready) == 0 {
			return
		}
		id := ready[0]
		if len(ready) > 1 {
			id = ready[vsym.Choose("next", len(ready))]
		}
		p.step(id, sts[id])
		done(id)
	}
}

func (p *post) work(id party.ID) bool {
	if p.taken[id] == 0 {
		return true
	}
	for _, m := range p.sent[p.taken[id]-1:] {
		if m.From != id && (m.To == 0 || m.To == id) {
			return true
		}
	}
	return false
}

func lists() party.IDSlice {
	if vsym.Choose("n", 2) == 0 {
		return party.IDSlice{255, 256}
	}
	return party.IDSlice{1, 256, 65535}
}

// spoil chooses what goes wrong.
func (p *post) spoil(ids party.IDSlice, types ...messages.MessageType) {
	if len(ids) == 3 && vsym.Tier() == 0 {
		// one representative
		if vsym.Choose("abort", 2) == 1 {
			p.broken = ids[1]
			p.typ = types[len(types)-1]
		}
		return
	}
	if k := vsym.Choose("abort", 1+len(types)); k > 0 {
		p.broken = ids[vsym.Choose("who", len(ids))]
		p.typ = types[k-1]
	}
}

// CheckKeygen: key generation.
func CheckKeygen() {
	ids := lists()
	t := party.Size(len(ids) - 1)
	sts := map[party.ID]*state.State{}
	outs := map[party.ID]*keygen.Output{}
	in := ids.Copy() // given to everybody
	for _, id := range ids {
		st, out, err := frost.NewKeygenState(id, in, t, 0)
		vsym.Assert(err == nil, "keygen-setup-accepted")
		sts[id], outs[id] = st, out
	}
	wreck := vsym.Choose("wreck", 2) == 1
	if wreck {
		for i := range in {
			in[i] = party.ID(65534 - i)
		}
	}
	var p post
	p.spoil(ids, messages.MessageTypeKeyGen1, messages.MessageTypeKeyGen2)
	// results as soon as they are there
	secrets := map[party.ID]*ristretto.Scalar{}
	var first *eddsa.Public
	finished := 0
	p.run(ids, sts, func(id party.ID) {
		out := outs[id]
		if secrets[id] != nil || out.Public == nil {
			return
		}
		vsym.Assert(sts[id].WaitForError() == nil && out.SecretKey != nil, "key-generation-finishes")
		finished++
		s := lib.CopyS(&out.SecretKey.Secret)
		secrets[id] = s
		pub := copyPublic(out.Public)
		vsym.Assert(out.SecretKey.ID == id && lib.EEq(lib.Base(s), pub.Shares[id]), "same-result-as-over-the-wire")
		vsym.Assert(lib.SameIDs(pub.PartyIDs, ids), "same-result-as-over-the-wire")
		group := ristretto.NewIdentityElement()
		for _, m := range p.sent {
			if m.Type == messages.MessageTypeKeyGen1 {
				group = lib.EAdd(group, m.KeyGen1.Commitments.Constant())
			}
		}
		vsym.Assert(pub.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(group)), "same-result-as-over-the-wire")
		if first == nil {
			first = pub
		} else {
			vsym.Assert(first.Equal(pub), "same-result-as-over-the-wire")
		}
		if wreck {
			ruinPublic(out.Public)
			ruinSecret(out.SecretKey)
		}
	})
	if !wreck {
		vsym.Assert(lib.SameIDs(in, ids), "input-untouched")
		for _, id := range ids {
			if secrets[id] != nil {
				vsym.Assert(first.Equal(outs[id].Public) && lib.SEq(secrets[id], &outs[id].SecretKey.Secret), "output-kept")
			}
		}
	}
	p.unchanged()
	want := len(ids)
	switch {
	case p.broken == 0:
		vsym.Cover("all-finish")
	case p.typ == messages.MessageTypeNone && p.stage(messages.MessageTypeKeyGen2):
		want-- // an abort in the last round concerns nobody else
		vsym.Assert(sts[p.broken].WaitForError() != nil, "corrupted-message-noticed")
		vsym.Cover("others-finish")
	default:
		want = 0
	}
	vsym.Assert(finished == want, "key-generation-finishes")
}

// stage reports whether all messages of a type were sent.
func (p *post) stage(t messages.MessageType) bool {
	from := map[party.ID]bool{}
	for _, m := range p.sent {
		if m.Type == t {
			from[m.From] = true
		}
	}
	return len(from) == len(p.taken)
}

func copyPublic(p *eddsa.Public) *eddsa.Public {
	m := map[party.ID]*ristretto.Element{}
	for id, e := range p.Shares {
		m[id] = lib.CopyE(e)
	}
	g := *p.GroupKey
	return &eddsa.Public{PartyIDs: p.PartyIDs.Copy(), Threshold: p.Threshold, Shares: m, GroupKey: &g}
}

func ruinPublic(p *eddsa.Public) {
	for id, e := range p.Shares {
		e.Add(e, ristretto.NewGeneratorElement())
		delete(p.Shares, id)
	}
	for i := range p.PartyIDs {
		p.PartyIDs[i] = party.ID(65534 - i)
	}
	*p.GroupKey = *eddsa.NewPublicKeyFromPoint(ristretto.NewIdentityElement())
	p.Threshold = 60000
}

func ruinSecret(s *eddsa.SecretShare) {
	s.ID = 60000
	s.Secret.Add(&s.Secret, lib.One())
	s.Public.Set(ristretto.NewIdentityElement())
}

// CheckSign: signing.
func CheckSign() {
	ids := lists()
	all := append(ids.Copy(), 0)[:len(ids)]
	_, secrets := helpers.GenerateSecrets(all, party.Size(len(ids)-1))
	pub := helpers.GeneratePublic(party.Size(len(ids)-1), secrets)
	keep := copyPublic(pub)
	sts := map[party.ID]*state.State{}
	outs := map[party.ID]*sign.Output{}
	in := ids.Copy()
	msg := []byte("message")
	held := map[party.ID]*ristretto.Scalar{}
	for _, id := range ids {
		held[id] = lib.CopyS(&secrets[id].Secret)
		st, out, err := frost.NewSignState(in, secrets[id], pub, msg, 0)
		vsym.Assert(err == nil, "sign-setup-accepted")
		sts[id], outs[id] = st, out
	}
	wreck := vsym.Choose("wreck", 2) == 1
	if wreck {
		for i := range in {
			in[i] = party.ID(65534 - i)
		}
		ruinPublic(pub)
		for _, id := range ids {
			ruinSecret(secrets[id])
		}
		for i := range msg {
			msg[i] = '?'
		}
	}
	var p post
	p.spoil(ids, messages.MessageTypeSign1, messages.MessageTypeSign2)
	sigs := map[party.ID]*eddsa.Signature{}
	var first []byte
	p.run(ids, sts, func(id party.ID) {
		out := outs[id]
		if sigs[id] != nil || out.Signature == nil {
			return
		}
		vsym.Assert(sts[id].WaitForError() == nil, "signing-finishes")
		vsym.Assert(keep.GroupKey.Verify([]byte("message"), out.Signature), "same-result-as-over-the-wire")
		b := out.Signature.ToEd25519()
		if first == nil {
			first = b
		}
		vsym.Assert(bytes.Equal(first, b), "same-result-as-over-the-wire")
		sigs[id] = out.Signature
		if wreck {
			out.Signature.R.Set(ristretto.NewIdentityElement())
			out.Signature.S.Add(&out.Signature.S, lib.One())
		}
	})
	if !wreck {
		vsym.Assert(lib.SameIDs(in, ids) && pub.Equal(keep) && string(msg) == "message", "input-untouched")
		for _, id := range ids {
			vsym.Assert(secrets[id].ID == id && lib.SEq(&secrets[id].Secret, held[id]), "input-untouched")
			if sigs[id] != nil {
				vsym.Assert(outs[id].Signature == sigs[id] && bytes.Equal(sigs[id].ToEd25519(), first), "output-kept")
			}
		}
	}
	p.unchanged()
	want := len(ids)
	switch {
	case p.broken == 0:
		vsym.Cover("all-sign")
	case p.typ == messages.MessageTypeNone && p.stage(messages.MessageTypeSign2):
		want--
		vsym.Assert(sts[p.broken].WaitForError() != nil, "corrupted-message-noticed")
		vsym.Cover("others-sign")
	default:
		want = 0
	}
	vsym.Assert(len(sigs) == want, "signing-finishes")
}

// CheckDecoded: a decoded message does not depend on the buffer, nor the
// encoded one on the message.
func CheckDecoded() {
	typ := vsym.Choose("type", 4)
	m := lib.AnyMessage(typ, 1)
	b, err := m.MarshalBinary()
	vsym.Assert(err == nil, "honest-message-marshals")
	keep := append([]byte{}, b...)
	var r messages.Message
	vsym.Assert(r.UnmarshalBinary(b) == nil, "honest-message-unmarshals")
	for i := range b {
		b[i] = 0xff
	}
	again, err := r.MarshalBinary()
	vsym.Assert(err == nil && bytes.Equal(again, keep), "message-independent-of-buffer")
	other, err := m.MarshalBinary()
	vsym.Assert(err == nil && bytes.Equal(other, keep), "message-independent-of-buffer")
	vsym.Cover("decoded")
}

// CheckBuilt: a message does not depend on the values it was made from.
func CheckBuilt() {
	d, e := vsym.Element("D"), vsym.Element("E")
	z := vsym.Scalar("z")
	id := party.ID(vsym.U16("from"))
	vsym.Assume(id != 0 && id != 9)
	m1, m2, m3 := messages.NewSign1(id, d, e), messages.NewSign2(id, z), messages.NewKeyGen2(id, 9, z)
	kd, ke, kz := lib.CopyE(d), lib.CopyE(e), lib.CopyS(z)
	d.Add(d, ristretto.NewGeneratorElement())
	e.Add(e, ristretto.NewGeneratorElement())
	z.Add(z, lib.One())
	vsym.Assert(lib.EEq(&m1.Sign1.Di, kd) && lib.EEq(&m1.Sign1.Ei, ke), "message-independent-of-parts")
	vsym.Assert(lib.SEq(&m2.Sign2.Zi, kz) && lib.SEq(&m3.KeyGen2.Share, kz), "message-independent-of-parts")
	vsym.Cover("built")
}
