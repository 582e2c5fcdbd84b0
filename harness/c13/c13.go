// Package c13: what happens when a step of the protocol fails.
package c13

import (
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "abstract protocols of 2..4 rounds, 2..3 (quick) or 2..4 parties with arbitrary IDs for 2 and 3: a failure with any culprit in any round, on the message of any one or two senders or while producing output; real key generation and signing with 3 parties: a bad proof, wrong degree, bad share, identity commitment, bad response (arbitrary values) from one or two parties in either processing order, wrong group key; after each, every kind of later call"

func tier(q, t int) int {
	if vsym.Tier() > 0 {
		return t
	}
	return q
}

// waiter waits for the result in its own goroutine.
type waiter struct{ res chan error }

func wait(st *state.State) *waiter {
	w := &waiter{make(chan error, 1)}
	go func() { w.res <- st.WaitForError() }()
	vsym.Settle()
	return w
}

func (w *waiter) got() (error, bool) {
	vsym.Settle()
	select {
	case e := <-w.res:
		return e, true
	default:
		return nil, false
	}
}

// aborted checks everything that must hold after an abort. It returns the
// reported error.
func aborted(st *state.State, w *waiter, round int, later *messages.Message) *state.Error {
	vsym.Assert(st.IsFinished(), "finished-after-abort")
	select {
	case <-st.Done():
	default:
		vsym.Assert(false, "done-signalled-after-abort")
	}
	err := st.Err()
	vsym.Assert(err != nil, "error-reported")
	e, ok := err.(*state.Error)
	vsym.Assert(ok && e != nil, "error-names-party-and-round")
	vsym.Assert(e.RoundNumber == round, "error-names-its-round")
	we, woken := w.got()
	vsym.Assert(woken, "waiter-woken")
	vsym.Assert(we == err && st.WaitForError() == err, "waiters-get-the-error")
	// nothing has any effect any more
	for i := 0; i < 2; i++ {
		vsym.Assert(len(st.ProcessAll()) == 0, "no-messages-after-abort")
		vsym.Assert(st.HandleMessage(later) != nil, "refused-after-abort")
		if i == 0 {
			vsym.Advance(1200 * time.Millisecond)
		}
		vsym.Assert(st.Err() == err && st.WaitForError() == err && st.IsFinished(), "first-error-kept")
	}
	vsym.Assert(e.RoundNumber == round, "error-unchanged")
	vsym.Cover("aborted")
	return e
}

func msg(typ messages.MessageType, from, to party.ID) *messages.Message {
	m := &messages.Message{Header: messages.Header{Type: typ, From: from}}
	if typ == messages.MessageTypeKeyGen2 {
		m.To = to
	}
	return m
}

// CheckAbstract: a failure at any step of an abstract protocol.
func CheckAbstract() {
	n := 2 + vsym.Choose("n", tier(2, 3))
	ids := party.IDSlice{1, 255, 256, 65535}[:n]
	if n < 4 {
		ids = lib.SymIDs(n)
	}
	rounds := 2 + vsym.Choose("rounds", 3)
	f := lib.NewFake(ids[0], ids, rounds)
	f.Fail = true
	f.FailRound = vsym.Choose("round", rounds)
	if f.FailRound > 0 {
		if c := vsym.Choose("step", n); c > 0 {
			f.FailFrom = ids[c]
			if n > 2 && vsym.Bool("two") {
				f.FailAlso = ids[1+c%(n-1)]
			}
		}
	}
	f.Blame = party.ID(vsym.U16("blame"))
	timeout := time.Duration(vsym.Choose("timeout", 2)) * time.Second
	vsym.MapOrder(vsym.Choose("order", 2))
	st, err := state.NewBaseState(f.Start(), timeout)
	vsym.Assert(err == nil, "state-created")
	w := wait(st)
	for r := 0; r < rounds; r++ {
		if r > 0 {
			for _, id := range ids[1:] {
				vsym.Assert(st.HandleMessage(msg(f.Types[r], id, f.Self)) == nil, "message-taken-in")
			}
		}
		_, woken := w.got()
		vsym.Assert(!woken && !st.IsFinished() && st.Err() == nil, "no-error-before-the-failure")
		out := st.ProcessAll()
		if r < f.FailRound {
			continue
		}
		vsym.Assert(len(out) == 0, "no-messages-from-the-failing-round")
		break
	}
	e := aborted(st, w, f.FailRound, msg(f.Types[rounds-1], ids[1], f.Self))
	vsym.Assert(e.PartyID == f.Blame, "culprit-kept")
	vsym.Assert(f.Count(lib.EvReset) == 1, "reset-once")
	vsym.Assert(f.CountIn(lib.EvNext, f.FailRound) == 0, "no-next-round-after-failure")
	if f.FailFrom != 0 {
		vsym.Assert(f.CountIn(lib.EvGenerate, f.FailRound) == 0, "no-output-computed-after-failure")
		last := f.Log[len(f.Log)-2]
		vsym.Assert(last.Kind == lib.EvProcess && (last.Msg.From == f.FailFrom || last.Msg.From == f.FailAlso), "nothing-processed-after-failure")
		failed := 0
		for _, e := range f.Log {
			if e.Kind == lib.EvProcess && e.Round == f.FailRound && e.Msg != nil && (e.Msg.From == f.FailFrom || f.FailAlso != 0 && e.Msg.From == f.FailAlso) {
				failed++
			}
		}
		vsym.Assert(failed == 1, "first-failure-aborts")
	} else {
		vsym.Assert(f.CountIn(lib.EvGenerate, f.FailRound) == 1, "failing-step-ran-once")
	}
	vsym.Cover("abstract-done")
}

// CheckSuccess: a successful run reports no error, to anybody, ever.
func CheckSuccess() {
	n := 2 + vsym.Choose("n", 2)
	ids := lib.SymIDs(n)
	rounds := 2 + vsym.Choose("rounds", 3)
	f := lib.NewFake(ids[n-1], ids, rounds)
	st, err := state.NewBaseState(f.Start(), time.Second)
	vsym.Assert(err == nil, "state-created")
	w := wait(st)
	st.ProcessAll()
	for r := 1; r < rounds; r++ {
		_, woken := w.got()
		vsym.Assert(!woken, "not-woken-early")
		for _, id := range ids[:n-1] {
			vsym.Assert(st.HandleMessage(msg(f.Types[r], id, f.Self)) == nil, "message-taken-in")
		}
		st.ProcessAll()
	}
	we, woken := w.got()
	vsym.Assert(woken && we == nil && st.Err() == nil && st.WaitForError() == nil, "success-reports-no-error")
	vsym.Advance(1200 * time.Millisecond)
	vsym.Assert(st.HandleMessage(msg(f.Types[rounds-1], ids[0], f.Self)) != nil, "refused-after-end")
	vsym.Assert(st.Err() == nil && st.WaitForError() == nil && f.Count(lib.EvReset) == 1, "success-stays")
	vsym.Cover("success")
}

// CheckRefusal: what a refusal says.
func CheckRefusal() {
	ids := party.IDSlice{11, 22, 33}
	f := lib.NewFake(22, ids, 4)
	st, err := state.NewBaseState(f.Start(), 0)
	vsym.Assert(err == nil, "state-created")
	st.ProcessAll()
	r := vsym.Choose("round", 2)
	if r == 1 {
		for _, id := range []party.ID{11, 33} {
			vsym.Assert(st.HandleMessage(msg(f.Types[1], id, 22)) == nil, "message-taken-in")
		}
		st.ProcessAll()
	}
	m := msg(f.Types[3], 33, 22)
	switch vsym.Choose("reason", 3) {
	case 0: // duplicate
		vsym.Assert(st.HandleMessage(m) == nil, "message-taken-in")
	case 1: // stranger
		m.From = 44
	case 2: // wrong type
		m.Type = 77
	}
	err = st.HandleMessage(m)
	vsym.Assert(err != nil, "refused")
	vsym.Assert(strings.Contains(err.Error(), "party 22"), "refusal-names-the-party")
	vsym.Assert(strings.Contains(err.Error(), "round "+[]string{"1", "2"}[r]), "refusal-names-the-round")
	vsym.Assert(strings.Contains(err.Error(), "culprit "+m.From.String()), "refusal-names-the-sender")
	vsym.Cover("refused")
}

// CheckText: what the error says.
func CheckText() {
	f := lib.NewFake(22, party.IDSlice{11, 22, 33}, 3)
	f.Fail, f.FailRound, f.Blame = true, vsym.Choose("round", 3), 33
	st, err := state.NewBaseState(f.Start(), 0)
	vsym.Assert(err == nil, "state-created")
	for r := 0; r < 3; r++ {
		if r > 0 {
			for _, id := range []party.ID{11, 33} {
				_ = st.HandleMessage(msg(f.Types[r], id, 22))
			}
		}
		st.ProcessAll()
	}
	err = st.WaitForError()
	vsym.Assert(err != nil, "error-reported")
	for _, s := range []string{"injected failure", "party 33", "round " + []string{"0", "1", "2"}[f.FailRound]} {
		vsym.Assert(strings.Contains(err.Error(), s), "error-text")
	}
	vsym.Cover("text")
}

// CheckKeygen: real key generation that fails in every possible way.
func CheckKeygen() {
	ids := party.IDSlice{1, 255, 65535}
	t := party.Size(1 + vsym.Choose("t", 2))
	vsym.MapOrder(vsym.Choose("order", 2))
	k := lib.NewKeygen(ids, t, time.Second)
	x := k[0]
	w := wait(x.St)
	sts := lib.KGStates(k)
	bad := 1 + vsym.Choose("bad", 3) // bits: k[1], k[2]
	isBad := func(id party.ID) bool { return id == ids[1] && bad&1 != 0 || id == ids[2] && bad&2 != 0 }
	m1 := lib.Round(sts, nil)
	kind := vsym.Choose("kind", 3)
	d := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(d))
	later := messages.NewKeyGen2(ids[1], ids[0], d)
	if kind < 2 {
		for _, m := range m1[1:] {
			if isBad(m.From) {
				c := lib.Wire(m)
				if kind == 0 {
					c.KeyGen1.Proof.S.Add(&c.KeyGen1.Proof.S, d)
				} else {
					cs := lib.Coefficients(c.KeyGen1.Commitments)
					c.KeyGen1.Commitments = lib.ExponentOf(append(cs, ristretto.NewIdentityElement()))
				}
				m = c
			}
			lib.Deliver(x.St, m)
		}
		vsym.Assert(len(x.St.ProcessAll()) == 0, "no-messages-from-the-failing-round")
		e := aborted(x.St, w, 1, later)
		vsym.Assert(isBad(e.PartyID), "culprit-named")
	} else {
		m2 := lib.Round(sts, m1)
		for _, m := range m2 {
			if m.To != x.ID {
				continue
			}
			c := lib.Wire(m)
			if isBad(m.From) {
				c.KeyGen2.Share.Add(&c.KeyGen2.Share, d)
			}
			lib.Deliver(x.St, c)
		}
		vsym.Assert(len(x.St.ProcessAll()) == 0, "no-messages-from-the-failing-round")
		e := aborted(x.St, w, 2, later)
		vsym.Assert(isBad(e.PartyID), "culprit-named")
	}
	noKey(x.Out)
}

func noKey(o *keygen.Output) {
	vsym.Assert(o.Public == nil && o.SecretKey == nil, "no-output-after-abort")
	vsym.Cover("no-key")
}

func noSig(o *sign.Output) {
	vsym.Assert(o.Signature == nil, "no-output-after-abort")
	vsym.Cover("no-signature")
}

// CheckSign: real signing that fails in every possible way.
func CheckSign() {
	ids := party.IDSlice{1, 255, 65535}
	vsym.MapOrder(vsym.Choose("order", 2))
	_, secrets := helpers.GenerateSecrets(ids, 2)
	pub := helpers.GeneratePublic(2, secrets)
	bad := 1 + vsym.Choose("bad", 3)
	kind := vsym.Choose("kind", 4)
	d := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(d))
	if kind == 3 {
		// shares are fine, but the group key is not theirs
		cp := *pub
		cp.GroupKey = eddsa.NewPublicKeyFromPoint(lib.Base(d))
		vsym.Assume(!cp.GroupKey.Equal(pub.GroupKey))
		pub = &cp
	}
	s := lib.NewSign(ids, secrets, pub, []byte("abort"), time.Second)
	x := s[0]
	w := wait(x.St)
	isBad := func(id party.ID) bool { return id == ids[1] && bad&1 != 0 || id == ids[2] && bad&2 != 0 }
	sts := lib.SGStates(s)
	m1 := lib.Round(sts, nil)
	later := messages.NewSign2(ids[1], d)
	if kind < 2 {
		for _, m := range m1[1:] {
			c := lib.Wire(m)
			if isBad(m.From) {
				if kind == 0 {
					c.Sign1.Di.Set(ristretto.NewIdentityElement())
				} else {
					c.Sign1.Ei.Set(ristretto.NewIdentityElement())
				}
			}
			vsym.Assert(x.St.HandleMessage(c) == nil, "message-taken-in")
		}
		vsym.Assert(len(x.St.ProcessAll()) == 0, "no-messages-from-the-failing-round")
		e := aborted(x.St, w, 1, later)
		vsym.Assert(isBad(e.PartyID), "culprit-named")
		noSig(x.Out)
		return
	}
	m2 := lib.Round(sts, m1)
	for _, m := range m2[1:] {
		c := lib.Wire(m)
		if kind == 2 && isBad(m.From) {
			c.Sign2.Zi.Add(&c.Sign2.Zi, d)
		}
		lib.Deliver(x.St, c)
	}
	vsym.Assert(len(x.St.ProcessAll()) == 0, "no-messages-from-the-failing-round")
	e := aborted(x.St, w, 2, later)
	if kind == 2 {
		vsym.Assert(isBad(e.PartyID), "culprit-named")
	} else {
		vsym.Assert(e.PartyID == 0, "nobody-blamed-for-the-wrong-key")
	}
	noSig(x.Out)
}

// failKeygen runs key generation among ids, where one message to the first
// party is bad, and returns the party, which aborted.
func failKeygen(ids party.IDSlice, bad party.ID, kind int, d *ristretto.Scalar) *state.State {
	k := lib.NewKeygen(ids, 1, 0)
	x := k[0]
	sts := lib.KGStates(k)
	in := lib.Round(sts, nil)
	if kind == 2 {
		in = lib.Round(sts, in)
	}
	for _, m := range in {
		if m.From == x.ID || m.To != 0 && m.To != x.ID {
			continue
		}
		c := lib.Wire(m)
		if m.From == bad {
			switch kind {
			case 0:
				c.KeyGen1.Proof.S.Add(&c.KeyGen1.Proof.S, d)
			case 1:
				cs := lib.Coefficients(c.KeyGen1.Commitments)
				c.KeyGen1.Commitments = lib.ExponentOf(append(cs, ristretto.NewIdentityElement()))
			case 2:
				c.KeyGen2.Share.Add(&c.KeyGen2.Share, d)
			}
		}
		lib.Deliver(x.St, c)
	}
	x.St.ProcessAll()
	return x.St
}

// failSign is the same for signing.
func failSign(ids party.IDSlice, bad party.ID, kind int, d *ristretto.Scalar) *state.State {
	_, secrets := helpers.GenerateSecrets(ids, 1)
	s := lib.NewSign(ids, secrets, helpers.GeneratePublic(1, secrets), []byte("abort"), 0)
	x := s[0]
	sts := lib.SGStates(s)
	in := lib.Round(sts, nil)
	if kind == 2 {
		in = lib.Round(sts, in)
	}
	for _, m := range in {
		if m.From == x.ID {
			continue
		}
		c := lib.Wire(m)
		if m.From == bad {
			switch kind {
			case 0:
				c.Sign1.Di.Set(ristretto.NewIdentityElement())
			case 1:
				c.Sign1.Ei.Set(ristretto.NewIdentityElement())
			case 2:
				c.Sign2.Zi.Add(&c.Sign2.Zi, d)
			}
		}
		lib.Deliver(x.St, c)
	}
	x.St.ProcessAll()
	return x.St
}

// kept remembers what a failed party reports.
type kept struct {
	st    *state.State
	err   error
	id    party.ID
	round int
	text  string
}

func keepError(st *state.State, bad party.ID, round int) kept {
	e, ok := st.Err().(*state.Error)
	vsym.Assert(st.IsFinished() && ok && e != nil, "error-reported")
	vsym.Assert(e.PartyID == bad, "culprit-named")
	vsym.Assert(e.RoundNumber == round, "error-names-its-round")
	return kept{st, e, bad, round, e.Error()}
}

func (k kept) check() {
	vsym.Assert(k.st.Err() == k.err && k.st.WaitForError() == k.err, "first-error-kept")
	e := k.err.(*state.Error)
	vsym.Assert(e.PartyID == k.id && e.RoundNumber == k.round, "error-not-changed-by-another-session")
	vsym.Assert(e.Error() == k.text, "error-text-not-changed-by-another-session")
}

// CheckTwo: what one session reports is not changed by the failure of another.
func CheckTwo() {
	d := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(d))
	ids := lib.SymIDs(3)
	other := party.IDSlice{7, 8, 9}
	round := func(kind int) int { return 1 + kind/2 }
	fail := failKeygen
	sign := vsym.Choose("sign", 2) == 1
	if sign {
		fail = failSign
	}
	k1, k2 := vsym.Choose("kind", 3), vsym.Choose("other", 3)
	a := keepError(fail(ids, ids[1], k1, d), ids[1], round(k1))
	b := keepError(fail(other, 9, k2, d), 9, round(k2))
	a.check()
	c := keepError(fail(ids, ids[2], k1, d), ids[2], round(k1))
	a.check()
	b.check()
	c.check()
	if sign {
		vsym.Cover("sign")
	} else {
		vsym.Cover("keygen")
	}
}

// CheckTwoTimeouts: the same for parties that waited too long.
func CheckTwoTimeouts() {
	late := func(rounds int) (*state.State, int) {
		f := lib.NewFake(2, party.IDSlice{1, 2, 3}, rounds)
		st, err := state.NewBaseState(f.Start(), time.Second)
		vsym.Assert(err == nil, "state-created")
		at := 0
		for ; at < rounds-1 && vsym.Bool("further"); at++ {
			st.ProcessAll()
			for _, id := range []party.ID{1, 3} {
				vsym.Assert(st.HandleMessage(msg(f.Types[at+1], id, 2)) == nil, "message-taken-in")
			}
		}
		vsym.Advance(1500 * time.Millisecond)
		return st, at
	}
	s1, r1 := late(3)
	a := keepError(s1, 0, r1)
	s2, r2 := late(3)
	b := keepError(s2, 0, r2)
	a.check()
	b.check()
	vsym.Cover("timeouts")
}
