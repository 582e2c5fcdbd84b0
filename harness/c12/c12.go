// Package c12: rounds advance exactly once, when all messages have arrived.
package c12

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "abstract protocols of up to 4 rounds that send 0..2 messages each (with 5 (quick) or 7 parties, one but in the last) with 2..5 (quick) or 2..7 parties (arbitrary IDs for 2 and 3; in a simpler run also 9 and the numbers up to 36, thorough 70, that the code treats specially and 258): in each round every set of senders arrives first (once or twice), then processing is called any number of times up to 2, then the rest arrives in any rotation; with 2 or 3 parties a message with any sender and addressee that does not count, at any point; real key generation and signing with 2..4 (quick) or 2..5 parties (arbitrary IDs for 2 and 3) and the same freedom at one party"

func tier(q, t int) int {
	if vsym.Tier() > 0 {
		return t
	}
	return q
}

func header(typ messages.MessageType, from, to party.ID) *messages.Message {
	m := &messages.Message{Header: messages.Header{Type: typ, From: from}}
	if typ == messages.MessageTypeKeyGen2 {
		m.To = to
	}
	return m
}

// CheckAbstract: the round runs exactly when the last message is there.
func CheckAbstract() {
	n := 2 + vsym.Choose("n", tier(4, 6))
	ids := party.IDSlice{1, 2, 255, 256, 4096, 65534, 65535}[:n]
	if n <= 3 {
		ids = lib.SymIDs(n)
	}
	rounds := 2 + vsym.Choose("rounds", 3)
	f := lib.NewFake(ids[vsym.Choose("self", 2)*(n-1)], ids, rounds)
	st, err := state.NewBaseState(f.Start(), 0)
	vsym.Assert(err == nil, "state-created")
	var o []party.ID
	for _, id := range ids {
		if id != f.Self {
			o = append(o, id)
		}
	}
	full := 1 + vsym.Choose("full", rounds-1) // the round with an arbitrary order
	f.Sends = make([]int, rounds)
	for r := range f.Sends {
		f.Sends[r] = b2i(r+1 < rounds)
	}
	if n <= tier(4, 6) {
		f.Sends[full] = vsym.Choose("sends", 3)
		f.Sends[full-1] = vsym.Choose("sends", 2)
	}
	vsym.Assert(len(st.ProcessAll()) == f.Sends[0], "first-round-needs-no-messages")
	vsym.Assert(f.Count(lib.EvGenerate) == 1, "first-round-ran-once")
	for r := 1; r < rounds; r++ {
		mask := 1<<uint(len(o)) - 1
		rot := 0
		if r == full {
			mask = arbitrary(len(o))
			rot = vsym.Choose("rotation", len(o))
		}
		again := r == full && vsym.Choose("again", 2) == 1
		for pass := 0; pass < 2; pass++ {
			for i := range o {
				j := (i + rot) % len(o)
				if mask>>uint(j)&1 == 1 != (pass == 0) {
					continue
				}
				vsym.Assert(st.HandleMessage(header(f.Types[r], o[j], f.Self)) == nil, "message-taken-in")
				if again {
					_ = st.HandleMessage(header(f.Types[r], o[j], f.Self))
				}
			}
			if pass == 0 && mask != 1<<uint(len(o))-1 {
				for i := vsym.Choose("calls", 3); i > 0; i-- {
					vsym.Assert(len(st.ProcessAll()) == 0, "no-output-before-all-messages")
					vsym.Cover("early-call")
				}
				vsym.Assert(f.Count(lib.EvGenerate) == r && f.CountIn(lib.EvProcess, r) == 0, "round-waits-for-all-messages")
			}
		}
		vsym.Assert(!st.IsFinished(), "not-finished-before-last-round")
		out := st.ProcessAll()
		vsym.Assert(f.CountIn(lib.EvGenerate, r) == 1 && f.Count(lib.EvGenerate) == r+1, "round-runs-once")
		vsym.Assert(f.CountIn(lib.EvProcess, r) == len(o), "all-messages-processed-once")
		vsym.Assert(len(out) == f.Sends[r], "output-of-the-round")
		for i, m := range out {
			vsym.Assert(m == f.Out[r][i], "output-of-the-round")
		}
		if r+1 < rounds {
			vsym.Assert(len(st.ProcessAll()) == 0, "second-call-has-no-effect")
		}
	}
	vsym.Assert(st.IsFinished() && st.Err() == nil && st.WaitForError() == nil, "finished")
	select {
	case <-st.Done():
	default:
		vsym.Assert(false, "done-signalled")
	}
	before := len(f.Log)
	vsym.Assert(len(st.ProcessAll()) == 0, "no-output-after-end")
	vsym.Assert(st.HandleMessage(header(f.Types[rounds-1], o[0], f.Self)) != nil, "refused-after-end")
	vsym.Assert(len(f.Log) == before && f.Count(lib.EvReset) == 1, "no-effect-after-end")
	vsym.Cover("abstract-done")
}

// CheckStray: a message that is not from another party, or not for us, does not
// count as one of those a round waits for, whenever it comes.
func CheckStray() {
	n := 2 + vsym.Choose("n", 2)
	ids := party.IDSlice{2, 256, 65535}[:n]
	if n == 2 {
		ids = lib.SymIDs(n)
	}
	f := lib.NewFake(ids[vsym.Choose("self", 2)*(n-1)], ids, 3)
	st, err := state.NewBaseState(f.Start(), 0)
	vsym.Assert(err == nil, "state-created")
	var o []party.ID
	for _, id := range ids {
		if id != f.Self {
			o = append(o, id)
		}
	}
	st.ProcessAll()
	at := vsym.Choose("at", 2*n)
	for r := 1; r < 3; r++ {
		for i := 0; i <= len(o); i++ {
			if (r-1)*n+i == at {
				typ := r
				if r == 1 && vsym.Choose("early", 2) == 1 {
					typ = 2
				}
				m := header(f.Types[typ], party.ID(vsym.U16("stray from")), 0)
				m.To = party.ID(vsym.U16("stray to"))
				for _, id := range o {
					vsym.Assume(m.From != id || m.To != 0 && m.To != f.Self)
				}
				_ = st.HandleMessage(m)
				vsym.Cover("stray")
			}
			if i == len(o) {
				break
			}
			vsym.Assert(len(st.ProcessAll()) == 0 && f.Count(lib.EvGenerate) == r && !st.IsFinished(), "round-waits-for-all-messages")
			vsym.Assert(st.HandleMessage(header(f.Types[r], o[i], f.Self)) == nil, "message-taken-in")
		}
		st.ProcessAll()
		vsym.Assert(f.CountIn(lib.EvGenerate, r) == 1 && f.Count(lib.EvGenerate) == r+1, "round-runs-once")
		vsym.Assert(f.CountIn(lib.EvProcess, r) == len(o), "all-messages-processed-once")
	}
	vsym.Assert(st.IsFinished() && st.Err() == nil, "finished")
}

// arbitrary is any set of senders.
func arbitrary(n int) int {
	mask := 0
	for i := 0; i < n; i++ {
		if vsym.Bool("first") {
			mask |= 1 << uint(i)
		}
	}
	return mask
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// some delivers a subset of in, then calls processing, then the rest.
func some(st *state.State, in []*messages.Message, finished func() bool) []*messages.Message {
	mask := arbitrary(len(in))
	for pass := 0; pass < 2; pass++ {
		for i, m := range in {
			if mask>>uint(i)&1 == 1 == (pass == 0) {
				lib.Deliver(st, m)
			}
		}
		if pass == 0 && mask != 1<<uint(len(in))-1 {
			for i := vsym.Choose("calls", 2); i >= 0; i-- {
				vsym.Assert(len(st.ProcessAll()) == 0, "no-output-before-all-messages")
			}
			vsym.Assert(!finished(), "not-finished-before-all-messages")
		}
	}
	out := st.ProcessAll()
	vsym.Assert(len(st.ProcessAll()) == 0, "second-call-has-no-effect")
	return out
}

// onlyFor: exactly one message for every other party, or one broadcast.
func onlyFor(out []*messages.Message, typ messages.MessageType, self party.ID, ids party.IDSlice, private bool) {
	if !private {
		vsym.Assert(len(out) == 1 && out[0].Type == typ && out[0].From == self && out[0].IsBroadcast(), "one-broadcast-per-round")
		return
	}
	vsym.Assert(len(out) == len(ids)-1, "one-message-per-party")
	seen := map[party.ID]bool{}
	for _, m := range out {
		vsym.Assert(m.Type == typ && m.From == self && m.To != self && ids.Contains(m.To) && !seen[m.To] && !m.IsBroadcast(), "one-message-per-party")
		seen[m.To] = true
	}
}

func idSet() party.IDSlice {
	if c := vsym.Choose("symbolic", 3); c > 0 {
		return lib.SymIDs(c + 1)
	}
	return []party.IDSlice{{1, 2}, {255, 256, 257}, {7, 256, 511, 65535}, {1, 2, 3, 4, 5}}[vsym.Choose("set", tier(3, 4))]
}

// CheckKeygen: real key generation.
func CheckKeygen() {
	ids := idSet()
	t := party.Size(1 + vsym.Choose("t", len(ids)-1))
	k := lib.NewKeygen(ids, t, 0)
	x := k[0]
	fin := func() bool { return x.St.IsFinished() || x.Out.Public != nil || x.Out.SecretKey != nil }
	out := x.St.ProcessAll()
	onlyFor(out, messages.MessageTypeKeyGen1, x.ID, ids, false)
	vsym.Assert(len(x.St.ProcessAll()) == 0, "second-call-has-no-effect")
	var in1, in2 []*messages.Message
	for _, y := range k[1:] {
		in1 = append(in1, y.St.ProcessAll()...)
	}
	for _, y := range k[1:] {
		lib.Deliver(y.St, out[0])
		for _, m := range in1 {
			if m.From != y.ID {
				lib.Deliver(y.St, m)
			}
		}
		for _, m := range y.St.ProcessAll() {
			if m.To == x.ID {
				in2 = append(in2, m)
			}
		}
	}
	out = some(x.St, in1, fin)
	onlyFor(out, messages.MessageTypeKeyGen2, x.ID, ids, true)
	vsym.Assert(!fin(), "not-finished-before-last-round")
	vsym.Assert(len(some(x.St, in2, fin)) == 0, "last-round-sends-nothing")
	vsym.Assert(x.St.IsFinished() && x.St.WaitForError() == nil && x.Out.Public != nil && x.Out.SecretKey != nil, "finished-with-output")
	vsym.Assert(x.St.HandleMessage(in2[0]) != nil && len(x.St.ProcessAll()) == 0, "no-effect-after-end")
	vsym.Cover("keygen-done")
}

// CheckSign: real signing.
func CheckSign() {
	ids := idSet()
	_, secrets := helpers.GenerateSecrets(ids, party.Size(len(ids)-1))
	pub := helpers.GeneratePublic(party.Size(len(ids)-1), secrets)
	s := lib.NewSign(ids, secrets, pub, []byte("rounds"), 0)
	x := s[0]
	fin := func() bool { return x.St.IsFinished() || x.Out.Signature != nil }
	out1 := x.St.ProcessAll()
	onlyFor(out1, messages.MessageTypeSign1, x.ID, ids, false)
	vsym.Assert(len(x.St.ProcessAll()) == 0, "second-call-has-no-effect")
	var in1, in2 []*messages.Message
	for _, y := range s[1:] {
		in1 = append(in1, y.St.ProcessAll()...)
	}
	for _, y := range s[1:] {
		for _, m := range append([]*messages.Message{out1[0]}, in1...) {
			if m.From != y.ID {
				lib.Deliver(y.St, m)
			}
		}
		in2 = append(in2, y.St.ProcessAll()...)
	}
	onlyFor(some(x.St, in1, fin), messages.MessageTypeSign2, x.ID, ids, false)
	vsym.Assert(!fin(), "not-finished-before-last-round")
	vsym.Assert(len(some(x.St, in2, fin)) == 0, "last-round-sends-nothing")
	vsym.Assert(x.St.IsFinished() && x.St.WaitForError() == nil && x.Out.Signature != nil, "finished-with-output")
	vsym.Assert(x.St.HandleMessage(in2[0]) != nil && len(x.St.ProcessAll()) == 0, "no-effect-after-end")
	vsym.Cover("sign-done")
}

// CheckEarly: messages of all rounds in any order, also those of later rounds
// before the protocol has begun.
func CheckEarly() {
	ids := party.IDSlice{1, 256, 65535}
	rounds := 3 + vsym.Choose("rounds", 2)
	f := lib.NewFake(256, ids, rounds)
	st, err := state.NewBaseState(f.Start(), 0)
	vsym.Assert(err == nil, "state-created")
	type item struct {
		r    int
		from party.ID
	}
	var left []item
	for r := 1; r < rounds; r++ {
		left = append(left, item{r, 1}, item{r, 65535})
	}
	have := make([]int, rounds)
	have[0] = 2
	ran, sent := 0, 0
	process := func() {
		out := st.ProcessAll()
		for ran < rounds && have[ran] == 2 {
			ran++
			if ran < rounds {
				sent++
			}
		}
		vsym.Assert(f.Count(lib.EvGenerate) == ran, "exactly-the-complete-rounds-run")
		for r := 1; r < rounds; r++ {
			vsym.Assert(f.CountIn(lib.EvGenerate, r) == b2i(r < ran), "exactly-the-complete-rounds-run")
			vsym.Assert(f.CountIn(lib.EvProcess, r) == 2*b2i(r < ran), "all-messages-processed-once")
		}
		vsym.Assert(len(out) == sent, "output-of-the-rounds")
		sent = 0
		vsym.Assert(st.IsFinished() == (ran == rounds), "finished-after-the-last-round")
	}
	// when processing is called: anywhere, for four rounds at one more point
	calls := 0
	at := 0
	if rounds == 3 {
		calls = vsym.Choose("calls", 16)
	} else {
		at = vsym.Choose("at", 6)
		calls = 1 << uint(at)
	}
	for i := 0; len(left) > 0; i++ {
		if calls>>uint(i)&1 == 1 {
			process()
		}
		k := vsym.Choose("next", len(left))
		m := left[k]
		left = append(append([]item{}, left[:k]...), left[k+1:]...)
		vsym.Assert(st.HandleMessage(header(f.Types[m.r], m.from, f.Self)) == nil, "message-taken-in")
		have[m.r]++
	}
	process()
	vsym.Assert(st.IsFinished() && st.WaitForError() == nil, "finished")
	vsym.Cover("early")
}

// CheckMany: more parties; the round runs with the last message.
func CheckMany() {
	vsym.Deep()
	n := vsym.Count("n", lib.Limit(), 9, 258)
	ids := lib.Many(n)
	f := lib.NewFake(ids[n/2], ids, 3)
	st, err := state.NewBaseState(f.Start(), 0)
	vsym.Assert(err == nil, "state-created")
	st.ProcessAll()
	last := ids[vsym.Choose("last", 2)*(n-1)]
	early := vsym.Choose("early", 2) == 1 // the next round's messages come first
	for r := 1; r < 3; r++ {
		typ := r
		if early {
			typ = 3 - r
		}
		for _, id := range ids {
			if id != f.Self && id != last {
				vsym.Assert(st.HandleMessage(header(f.Types[typ], id, f.Self)) == nil, "message-taken-in")
			}
		}
		if r == 1 {
			vsym.Assert(len(st.ProcessAll()) == 0 && f.Count(lib.EvGenerate) == 1, "round-waits-for-all-messages")
		}
		vsym.Assert(st.HandleMessage(header(f.Types[typ], last, f.Self)) == nil, "message-taken-in")
		st.ProcessAll()
		if early && r == 1 {
			vsym.Assert(f.Count(lib.EvGenerate) == 1, "round-waits-for-all-messages")
		} else {
			vsym.Assert(f.Count(lib.EvGenerate) == r+1 && f.CountIn(lib.EvProcess, r) == n-1, "all-messages-processed-once")
		}
	}
	vsym.Assert(st.IsFinished() && f.CountIn(lib.EvProcess, 1) == n-1 && f.CountIn(lib.EvProcess, 2) == n-1, "finished")
	vsym.Cover("many")
}
