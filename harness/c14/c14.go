// Package c14: aborting by time.
package c14

import (
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "abstract protocol with 3 parties: from the start, the first or the last round, every sequence of 3 (quick) or 4 steps, each any gap of 0 to 1.5 timeouts in steps of 1/20 (never exactly at the deadline) followed by an accepted, early, duplicate, own, foreign, unknown-sender or wrong-type message (arbitrary headers where that is meant) or a processing call; timeout set or zero; every timeout up to 33 ms, and every one from 1 s up to the longest, with a gap of 0.2 s before or after a message; real key generation and signing with 2..3 parties: a timeout or none before every single step"

const Assumptions = "virtual time: the duration of a step itself is zero, and a timer fires as soon as it is due"

const d = 20 * unit

const unit = 1 << 25 * time.Nanosecond // 34 ms; a power of two is cheap for the solver

// gap returns any duration from lo to hi units.
func gap(lo, hi uint8) time.Duration {
	g := vsym.U8("gap")
	vsym.Assume(g >= lo)
	vsym.Assume(g <= hi)
	return time.Duration(g) << 25
}

const long = d * 7 / 5

func msg(typ messages.MessageType, from, to party.ID) *messages.Message {
	m := &messages.Message{Header: messages.Header{Type: typ, From: from}}
	if typ == messages.MessageTypeKeyGen2 {
		m.To = to
	}
	return m
}

func closed(st *state.State) bool {
	select {
	case <-st.Done():
		return true
	default:
		return false
	}
}

// timedOut checks an abort by time.
func timedOut(st *state.State, round int) {
	vsym.Assert(st.IsFinished() && closed(st), "timeout-aborts")
	err := st.WaitForError()
	vsym.Assert(err != nil, "timeout-reported")
	e, ok := err.(*state.Error)
	vsym.Assert(ok && e.PartyID == 0, "timeout-blames-nobody")
	vsym.Assert(e.RoundNumber == round, "timeout-names-its-round")
	vsym.Assert(len(st.ProcessAll()) == 0, "no-messages-after-timeout")
	vsym.Advance(0)
	vsym.Assert(st.Err() == err, "error-kept")
	vsym.Cover("timed-out")
}

// CheckSequences: any sequence of gaps and deliveries.
func CheckSequences() {
	ids := party.IDSlice{9, 256, 257}
	self := party.ID(256)
	f := lib.NewFake(self, ids, 4)
	timeout := time.Duration(0)
	if vsym.Choose("timeout", 2) == 1 {
		timeout = d
	}
	st, err := state.NewBaseState(f.Start(), timeout)
	vsym.Assert(err == nil, "state-created")
	var idle time.Duration
	have := map[party.ID]bool{}
	early := map[party.ID]bool{}
	round := 0
	process := func() {
		st.ProcessAll()
		for round == 0 || round < 4 && have[9] && have[257] {
			round++
			have, early = early, map[party.ID]bool{}
		}
	}
	switch vsym.Choose("start", 3) {
	case 1:
		process()
	case 2: // most of the protocol is done
		process()
		for round < 3 {
			for _, from := range (party.IDSlice{257, 9}) {
				vsym.Assert(st.HandleMessage(msg(f.Types[round], from, self)) == nil, "message-taken-in")
				have[from] = true
			}
			process()
		}
		vsym.Assert(st.HandleMessage(msg(f.Types[3], 257, self)) == nil, "message-taken-in")
		have[257] = true
	}
	k := 3
	if vsym.Tier() > 0 {
		k = 4
	}
	for ; k > 0; k-- {
		g := gap(0, 30)
		idle += g
		vsym.Assume(idle != d)
		vsym.Advance(g)
		if timeout > 0 && idle > d {
			timedOut(st, round)
			if f.Count(lib.EvReset) != 1 {
				vsym.Assert(false, "reset-once")
			}
			return
		}
		vsym.Assert(!st.IsFinished() && !closed(st) && st.Err() == nil, "no-timeout-within-duration")
		from := party.ID(9)
		act := vsym.Choose("action", 6)
		if act < 2 {
			from = ids[vsym.Choose("from", 2)*2]
		}
		switch act {
		case 0:
			if round == 0 || round == 4 {
				vsym.Assume(false)
			}
			ok := st.HandleMessage(msg(f.Types[round], from, self)) == nil
			vsym.Assert(ok == !have[from], "message-taken-in-once")
			if ok {
				have[from] = true
				idle = 0
				vsym.Cover("accepted")
			} else {
				vsym.Cover("duplicate")
			}
		case 1:
			if round >= 3 {
				vsym.Assume(false)
			}
			ok := st.HandleMessage(msg(f.Types[round+1], from, self)) == nil
			vsym.Assert(ok == !early[from], "message-taken-in-once")
			if ok {
				early[from] = true
				idle = 0
				vsym.Cover("early")
			}
		case 2: // unknown sender, ourselves included
			m := msg(f.Types[1], party.ID(vsym.U16("stranger")), self)
			vsym.Assume(m.From != 9 && m.From != 257)
			_ = st.HandleMessage(m)
			vsym.Cover("stranger")
		case 3: // for somebody else
			m := msg(messages.MessageTypeKeyGen2, from, party.ID(vsym.U16("addressee")))
			vsym.Assume(m.To != self && m.To != 0)
			_ = st.HandleMessage(m)
			vsym.Cover("foreign")
		case 4: // a type of no round to come
			m := msg(messages.MessageType(vsym.U8("type")), from, self)
			m.To = self
			for r := round; r < len(f.Types); r++ {
				vsym.Assume(m.Type != f.Types[r])
			}
			vsym.Assert(st.HandleMessage(m) != nil, "wrong-type-refused")
			vsym.Cover("wrong-type")
		case 5:
			process()
		}
		if round == 4 {
			vsym.Assert(st.IsFinished(), "finished")
			vsym.Advance(d * 3)
			vsym.Assert(st.WaitForError() == nil && f.Count(lib.EvReset) == 1, "no-timeout-after-end")
			vsym.Cover("finished")
			return
		}
	}
}

// CheckFinish: a finished protocol is left alone by time, also when it
// finishes just before the deadline.
func CheckFinish() {
	f := lib.NewFake(2, party.IDSlice{1, 2}, 2)
	st, err := state.NewBaseState(f.Start(), d)
	vsym.Assert(err == nil, "state-created")
	st.ProcessAll()
	vsym.Advance(gap(0, 19))
	vsym.Assert(st.HandleMessage(msg(f.Types[1], 1, 2)) == nil, "message-taken-in")
	vsym.Advance(gap(0, 19))
	st.ProcessAll()
	vsym.Assert(st.IsFinished() && st.Err() == nil, "finished")
	vsym.Advance(3 * d)
	vsym.Assert(st.WaitForError() == nil && closed(st), "no-timeout-after-end")
	vsym.Assert(f.Count(lib.EvReset) == 1, "reset-once")
	vsym.Cover("finished-in-time")
}

// pause lets time pass: never enough for a timeout, or, at one chosen point,
// enough.
type pause struct{ left int }

func (p *pause) at(st *state.State, round int) bool {
	p.left--
	if p.left == 0 {
		vsym.Advance(long)
		timedOut(st, round)
		return true
	}
	return false
}

// CheckKeygen: real key generation.
func CheckKeygen() {
	n := 2 + vsym.Choose("n", 2)
	ids := party.IDSlice{1, 256, 65535}[:n]
	timeout := d
	if vsym.Choose("timeout", 2) == 0 {
		timeout = 0
	}
	k := lib.NewKeygen(ids, 1, 0)
	k[0] = lib.NewKeygen(ids, 1, timeout)[0]
	x := k[0]
	p := &pause{1 + vsym.Choose("pause", 2*n+2)}
	if timeout == 0 {
		vsym.Advance(long)
		p.left = -1
	}
	none := func() {
		vsym.Assert(x.Out.Public == nil && x.Out.SecretKey == nil, "no-output-after-timeout")
		vsym.Cover("keygen-timeout")
	}
	if p.at(x.St, 0) {
		none()
		return
	}
	sts := lib.KGStates(k)
	m1 := lib.Round(sts, nil)
	if p.at(x.St, 1) {
		none()
		return
	}
	for i, m := range m1 {
		for _, s := range sts {
			lib.Deliver(s, m)
		}
		if i > 0 && p.at(x.St, 1) {
			none()
			return
		}
	}
	var m2 []*messages.Message
	for _, s := range sts {
		m2 = append(m2, s.ProcessAll()...)
	}
	if p.at(x.St, 2) {
		none()
		return
	}
	for _, m := range m2 {
		for _, s := range sts {
			lib.Deliver(s, m)
		}
		if m.To == x.ID && p.at(x.St, 2) {
			none()
			return
		}
	}
	lib.Round(sts, nil)
	vsym.Advance(long)
	vsym.Assert(x.St.IsFinished() && x.St.WaitForError() == nil && x.Out.Public != nil && x.Out.SecretKey != nil, "finished-in-time")
	vsym.Assert(x.Out.Public.Equal(k[1].Out.Public), "same-key")
	vsym.Cover("keygen-finished")
}

// CheckSign: real signing.
func CheckSign() {
	n := 2 + vsym.Choose("n", 2)
	ids := party.IDSlice{1, 256, 65535}[:n]
	timeout := d
	if vsym.Choose("timeout", 2) == 0 {
		timeout = 0
	}
	_, secrets := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, secrets)
	s := lib.NewSign(ids, secrets, pub, []byte("time"), 0)
	s[0] = lib.NewSigner(ids, secrets[ids[0]], pub, []byte("time"), timeout)
	x := s[0]
	p := &pause{1 + vsym.Choose("pause", 2*n+2)}
	if timeout == 0 {
		vsym.Advance(long)
		p.left = -1
	}
	none := func() {
		vsym.Assert(x.Out.Signature == nil, "no-output-after-timeout")
		vsym.Cover("sign-timeout")
	}
	if p.at(x.St, 0) {
		none()
		return
	}
	sts := lib.SGStates(s)
	in := lib.Round(sts, nil)
	for round := 1; round < 3; round++ {
		if p.at(x.St, round) {
			none()
			return
		}
		for i, m := range in {
			for _, s := range sts {
				lib.Deliver(s, m)
			}
			if i > 0 && p.at(x.St, round) {
				none()
				return
			}
		}
		in = lib.Round(sts, nil)
	}
	vsym.Advance(long)
	vsym.Assert(x.St.IsFinished() && x.St.WaitForError() == nil && x.Out.Signature != nil, "finished-in-time")
	vsym.Cover("sign-finished")
}

// CheckDurations: very short and very long timeouts.
func CheckDurations() {
	f := lib.NewFake(2, party.IDSlice{1, 2, 3}, 2)
	var timeout time.Duration
	short := vsym.Choose("short", 2) == 1
	if short {
		timeout = time.Duration(vsym.U32("timeout") & (1<<25 - 1))
	} else {
		t := vsym.U64("timeout")
		vsym.Assume(t >= 1<<30 && t < 1<<63)
		timeout = time.Duration(t)
	}
	st, err := state.NewBaseState(f.Start(), timeout)
	vsym.Assert(err == nil, "state-created")
	round := 0
	if !short && vsym.Bool("message") {
		st.ProcessAll()
		round = 1
		vsym.Assert(st.HandleMessage(msg(f.Types[1], 1, 2)) == nil, "message-taken-in")
	}
	vsym.Advance(200 * time.Millisecond)
	if short && timeout > 0 {
		timedOut(st, round)
		vsym.Cover("short")
		return
	}
	vsym.Assert(!st.IsFinished() && !closed(st) && st.Err() == nil, "no-timeout-within-duration")
	if timeout == 0 {
		vsym.Cover("none")
	} else {
		vsym.Cover("long")
	}
}
