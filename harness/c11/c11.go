// Package c11: which messages are taken in, and independence of their order.
package c11

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "abstract protocols: 2 or 3 parties, from four points of the protocol every sequence of 2 or 1 (quick) or 3 or 2 deliveries with arbitrary type, sender and addressee, and every sequence of 6 or 5 (quick) or 7 deliveries with well-formed headers and processing calls; three choices of the protocol's message types; real key generation and signing with 2 parties: any message of the other protocol or of a past round at every point; with 3 parties (thorough: 4 in signing): every order of all messages to one party, processing after any of them, any one message duplicated or misaddressed"

// model is the reference: what has been taken in for each round.
type model struct {
	f     *lib.Fake
	st    *state.State
	round int
	got   []map[party.ID]*messages.Message
	done  bool
}

func newModel(self party.ID, ids party.IDSlice, rounds int, types []messages.MessageType) *model {
	f := lib.NewFake(self, ids, rounds)
	if types != nil {
		f.Types = types
	}
	st, err := state.NewBaseState(f.Start(), 0)
	vsym.Assert(err == nil, "state-created")
	m := &model{f: f, st: st}
	for range f.Types {
		m.got = append(m.got, map[party.ID]*messages.Message{})
	}
	return m
}

func (m *model) others() []party.ID {
	var r []party.ID
	for _, id := range m.f.IDs {
		if id != m.f.Self {
			r = append(r, id)
		}
	}
	return r
}

// handle delivers msg and compares the verdict.
func (m *model) handle(msg *messages.Message) {
	before := len(m.f.Log)
	err := m.st.HandleMessage(msg)
	vsym.Assert(len(m.f.Log) == before, "delivery-does-not-run-the-round")
	if m.done {
		vsym.Assert(err != nil, "refused-after-end")
		return
	}
	if msg.From == m.f.Self {
		vsym.Cover("own")
		return
	}
	if msg.To != 0 && msg.To != m.f.Self {
		vsym.Cover("not-for-us")
		return
	}
	for _, id := range m.others() {
		if msg.From != id {
			continue
		}
		for r := m.round; r < len(m.f.Types); r++ {
			if msg.Type != m.f.Types[r] {
				continue
			}
			if r == 0 || m.got[r][id] != nil {
				vsym.Assert(err != nil, "second-message-refused")
				vsym.Cover("duplicate")
				return
			}
			vsym.Assert(err == nil, "message-taken-in")
			m.got[r][id] = msg
			vsym.Cover("accepted")
			if r > m.round {
				vsym.Cover("early")
			}
			return
		}
		vsym.Assert(err != nil, "wrong-type-refused")
		vsym.Cover("wrong-type")
		return
	}
	vsym.Assert(err != nil, "stranger-refused")
	vsym.Cover("stranger")
}

// complete: all messages of the current round are there.
func (m *model) complete() bool {
	return !m.done && (m.round == 0 || len(m.got[m.round]) == len(m.f.IDs)-1)
}

// process runs the processing step and compares: it runs all complete rounds.
func (m *model) process() {
	before := len(m.f.Log)
	nout := len(m.f.Out)
	out := m.st.ProcessAll()
	log := m.f.Log[before:]
	for m.complete() {
		log = m.checkRound(log)
	}
	vsym.Assert(len(log) == 0, "incomplete-round-does-not-run")
	for _, ref := range m.f.Out[nout:] {
		vsym.Assert(len(out) >= len(ref), "round-output-returned")
		for i := range ref {
			vsym.Assert(out[i] == ref[i], "round-output-returned")
		}
		out = out[len(ref):]
	}
	vsym.Assert(len(out) == 0, "nothing-else-returned")
	vsym.Assert(m.st.IsFinished() == m.done, "finished-after-last-round")
}

// checkRound compares the events of one round and returns the others.
func (m *model) checkRound(log []lib.Event) []lib.Event {
	o := len(m.f.IDs) - 1
	k := 0
	for k < len(log) && log[k].Kind == lib.EvProcess {
		k++
	}
	if m.round > 0 {
		vsym.Assert(k == o, "every-message-processed-once")
		seen := map[party.ID]bool{}
		for _, e := range log[:k] {
			vsym.Assert(e.Round == m.round, "processed-in-its-round")
			vsym.Assert(e.Msg == m.got[m.round][e.Msg.From] && !seen[e.Msg.From], "the-message-taken-in-is-processed")
			seen[e.Msg.From] = true
		}
	}
	log = log[k:]
	vsym.Assert(len(log) >= 2 && log[0].Kind == lib.EvGenerate && log[0].Round == m.round && log[1].Kind == lib.EvNext, "round-runs-after-its-messages")
	log = log[2:]
	m.round++
	if m.round == len(m.f.Types) {
		vsym.Assert(len(log) == 1 && log[0].Kind == lib.EvReset, "reset-at-end")
		m.done = true
		vsym.Cover("finished")
		return nil
	}
	return log
}

func steps(q, t int) int {
	if vsym.Tier() > 0 {
		return t
	}
	return q
}

// typeSets are the message types of abstract protocols of three rounds.
var typeSets = [][]messages.MessageType{
	{messages.MessageTypeNone, messages.MessageTypeKeyGen1, messages.MessageTypeKeyGen2},
	{messages.MessageTypeNone, messages.MessageTypeSign1, messages.MessageTypeSign2},
	{messages.MessageTypeNone, messages.MessageTypeKeyGen1, messages.MessageTypeSign2},
}

// CheckAdmission: arbitrary headers.
func CheckAdmission() {
	n := 2 + vsym.Choose("n", 2)
	ids := party.IDSlice{255, 256, 257}[:n]
	m := newModel(ids[vsym.Choose("self", 2)], ids, 3, typeSets[vsym.Choose("types", len(typeSets)+2-n)])
	vsym.MapOrder(vsym.Choose("order", n-1))
	o := m.others()
	switch vsym.Choose("prefix", 4) {
	case 1:
		m.process()
	case 2:
		m.process()
		m.wellFormed(1, o[0])
	case 3:
		m.process()
		for _, id := range o {
			m.wellFormed(1, id)
		}
		m.process()
		m.wellFormed(2, o[0])
	}
	for i := steps(4, 5) - n; i > 0; i-- {
		m.handle(&messages.Message{Header: messages.Header{
			Type: messages.MessageType(vsym.U8("type")),
			From: party.ID(vsym.U16("from")),
			To:   party.ID(vsym.U16("to")),
		}})
		if vsym.Choose("process", 2) == 1 {
			m.process()
		}
	}
	for i := 0; i < 3; i++ {
		m.process()
	}
}

func (m *model) wellFormed(round int, from party.ID) {
	h := messages.Header{Type: m.f.Types[round], From: from}
	if h.Type == messages.MessageTypeKeyGen2 {
		h.To = m.f.Self
	}
	m.handle(&messages.Message{Header: h})
}

// CheckSequences: longer sequences of messages that can be taken in.
func CheckSequences() {
	n := 2 + vsym.Choose("n", 2)
	ids := party.IDSlice{1, 2, 3}[:n]
	rounds := steps(4, 5)
	k := steps(6, 7)
	if n == 3 {
		rounds = 3
		k = steps(5, 7)
	}
	vsym.MapOrder(vsym.Choose("order", n-1))
	m := newModel(ids[n-1], ids, rounds, nil)
	m.process()
	o := m.others()
	for i := 0; i < k; i++ {
		c := vsym.Choose("action", (rounds-1)*len(o)+1)
		if c == 0 {
			m.process()
			continue
		}
		c--
		m.wellFormed(1+c/len(o), o[c%len(o)])
	}
	for i := 0; i < rounds; i++ {
		m.process()
	}
}

// CheckOtherProtocol: messages of the other protocol, or of rounds that are over,
// do nothing to a real key generation or signing.
func CheckOtherProtocol() {
	ids := party.IDSlice{3, 256}
	self, peer := ids[0], ids[1]
	_, secrets := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, secrets)
	var sts []*state.State
	var k []*lib.KG
	var g []*lib.SG
	first := 0
	if vsym.Choose("sign", 2) == 0 {
		k = lib.NewKeygen(ids, 1, 0)
		sts = lib.KGStates(k)
	} else {
		g = lib.NewSign(ids, secrets, pub, []byte("other"), 0)
		sts = lib.SGStates(g)
		first = 2
	}
	point := vsym.Choose("point", 4) // number of processing calls before
	typ := vsym.Choose("type", 4)
	own := typ >= first && typ < first+2
	if own && typ-first+1 >= point {
		vsym.Assume(false) // that message is expected
	}
	var out []*messages.Message
	for i := 0; i < 4; i++ {
		if i == point {
			m := lib.AnyMessage(typ, 1)
			m.From = peer
			if m.Type == messages.MessageTypeKeyGen2 {
				m.To = self
			}
			vsym.Assert(sts[0].HandleMessage(m) != nil, "other-protocol-refused")
			if i > 0 {
				vsym.Assert(len(sts[0].ProcessAll()) == 0, "nothing-else-returned")
			}
		}
		out = lib.Loose(sts, out)
	}
	vsym.Assert(sts[0].WaitForError() == nil && sts[1].WaitForError() == nil, "everybody-finishes")
	if k != nil {
		vsym.Assert(k[0].Out.Public.Equal(k[1].Out.Public), "same-key")
		vsym.Cover("keygen undisturbed")
	} else {
		vsym.Assert(pub.GroupKey.Verify([]byte("other"), g[0].Out.Signature), "signature-valid")
		vsym.Cover("signing undisturbed")
	}
}

// victim is the party whose deliveries are reordered.
type victim struct {
	st      *state.State
	pool    []*messages.Message // not yet delivered
	sent    []*messages.Message // delivered
	bad     []*messages.Message // not for us
	trouble bool
	out     func([]*messages.Message)
}

// run delivers everything in an arbitrary order.
func (v *victim) run() {
	for {
		if vsym.Choose("process", 2) == 1 {
			v.out(v.st.ProcessAll())
		}
		if len(v.pool) == 0 {
			v.out(v.st.ProcessAll())
			if len(v.pool) == 0 {
				return
			}
		}
		i := 0
		if len(v.pool) > 1 {
			i = vsym.Choose("deliver", len(v.pool))
		}
		m := v.pool[i]
		vsym.Assert(v.st.HandleMessage(lib.Wire(m)) == nil, "honest-message-taken-in")
		v.pool = append(append([]*messages.Message{}, v.pool[:i]...), v.pool[i+1:]...)
		v.sent = append(v.sent, m)
		if !v.trouble && vsym.Choose("trouble", 2) == 1 {
			v.trouble = true
			if len(v.bad) > 0 && vsym.Choose("foreign", 2) == 1 {
				_ = v.st.HandleMessage(lib.Wire(v.bad[0]))
				vsym.Cover("foreign")
			} else {
				d := v.sent[0]
				if len(v.sent) > 1 {
					d = v.sent[vsym.Choose("again", len(v.sent))]
				}
				vsym.Assert(v.st.HandleMessage(lib.Wire(d)) != nil || v.st.IsFinished(), "duplicate-refused")
				vsym.Cover("duplicated")
			}
		}
	}
}

// CheckKeygenOrder: key generation with all delivery orders at one party.
func CheckKeygenOrder() {
	ids := party.IDSlice{3, 255, 256}
	t := party.Size(1)
	if vsym.Tier() > 0 {
		t = party.Size(1 + vsym.Choose("t", 2))
	}
	k := lib.NewKeygen(ids, t, 0)
	vi := 0
	if vsym.Tier() > 0 {
		vi = vsym.Choose("victim", 3)
	}
	a, b := k[(vi+1)%3], k[(vi+2)%3]
	v := &victim{st: k[vi].St}
	ma, mb := a.St.ProcessAll(), b.St.ProcessAll()
	v.pool = append(append(v.pool, ma...), mb...)
	lib.Deliver(a.St, mb[0])
	lib.Deliver(b.St, ma[0])
	n1, n2 := 0, 0
	v.out = func(out []*messages.Message) {
		for _, m := range out {
			if m.Type == messages.MessageTypeKeyGen2 {
				n2++
				for _, x := range []*lib.KG{a, b} {
					if m.To == x.ID {
						lib.Deliver(x.St, m)
					}
				}
				continue
			}
			n1++
			lib.Deliver(a.St, m)
			lib.Deliver(b.St, m)
			for _, m := range append(a.St.ProcessAll(), b.St.ProcessAll()...) {
				if m.To == k[vi].ID {
					v.pool = append(v.pool, m)
					continue
				}
				v.bad = append(v.bad, m)
				for _, x := range []*lib.KG{a, b} {
					if m.To == x.ID {
						lib.Deliver(x.St, m)
					}
				}
			}
		}
		a.St.ProcessAll()
		b.St.ProcessAll()
	}
	v.run()
	vsym.Assert(n1 == 1 && n2 == 2, "every-message-sent-once")
	for _, x := range k {
		vsym.Assert(x.St.IsFinished() && x.St.WaitForError() == nil, "everybody-finishes")
		vsym.Assert(x.Out.Public != nil && x.Out.Public.Equal(a.Out.Public), "same-key")
		vsym.Assert(lib.EEq(lib.Base(&x.Out.SecretKey.Secret), a.Out.Public.Shares[x.ID]), "share-fits")
	}
	vsym.Cover("keygen-done")
}

// CheckSignOrder: signing with all delivery orders at one party.
func CheckSignOrder() {
	n := 3
	if vsym.Tier() > 0 {
		n = 3 + vsym.Choose("n", 2)
	}
	ids := party.IDSlice{3, 255, 256, 65535}[:n]
	_, secrets := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, secrets)
	msg := []byte("order")
	s := lib.NewSign(ids, secrets, pub, msg, 0)
	vi := vsym.Choose("victim", 2)
	v := &victim{st: s[vi].St}
	var rest []*lib.SG
	for i, x := range s {
		if i != vi {
			rest = append(rest, x)
		}
	}
	if n == 4 {
		v.trouble = true
	}
	sts := lib.SGStates(rest)
	m1 := lib.Round(sts, nil)
	v.pool = append(v.pool, m1...)
	for _, m := range m1 {
		for _, x := range sts {
			_ = x.HandleMessage(lib.Wire(m))
		}
	}
	n1, n2 := 0, 0
	v.out = func(out []*messages.Message) {
		for _, m := range out {
			if m.Type == messages.MessageTypeSign1 {
				n1++
			} else {
				n2++
			}
			for _, x := range sts {
				lib.Deliver(x, m)
			}
			var m2 []*messages.Message
			for _, x := range sts {
				m2 = append(m2, x.ProcessAll()...)
			}
			v.pool = append(v.pool, m2...)
			for _, m := range m2 {
				for _, x := range sts {
					_ = x.HandleMessage(lib.Wire(m))
				}
			}
		}
		for _, x := range sts {
			x.ProcessAll()
		}
	}
	v.run()
	vsym.Assert(n1 == 1 && n2 == 1, "every-message-sent-once")
	for _, x := range s {
		vsym.Assert(x.St.IsFinished() && x.St.WaitForError() == nil, "everybody-finishes")
		vsym.Assert(x.Out.Signature != nil && x.Out.Signature.Equal(s[0].Out.Signature), "same-signature")
	}
	vsym.Assert(pub.GroupKey.Verify(msg, s[vi].Out.Signature), "signature-valid")
	vsym.Cover("sign-done")
}
