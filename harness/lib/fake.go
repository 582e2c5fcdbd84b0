package lib

import (
	"errors"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

// Event kinds recorded by a Fake.
const (
	EvProcess = iota
	EvGenerate
	EvNext
	EvReset
)

type Event struct {
	Kind, Round int
	Msg         *messages.Message
}

// Fake is a protocol that only records what the state machine does with it.
type Fake struct {
	Self  party.ID
	IDs   party.IDSlice
	Types []messages.MessageType // one per round, MessageTypeNone first
	Log   []Event
	Out   [][]*messages.Message // what GenerateMessages returned
	Sends []int                  // messages sent by each round; one by all but the last if nil

	// Failure to inject: in round FailRound, on the message of FailFrom
	// (processing), or when generating (FailFrom == 0).
	Fail      bool
	FailRound int
	FailFrom  party.ID
	FailAlso  party.ID // a second sender whose message fails
	Blame     party.ID
	FailErr   error
}

var FakeTypes = []messages.MessageType{
	messages.MessageTypeNone, messages.MessageTypeKeyGen1, messages.MessageTypeKeyGen2,
	messages.MessageTypeSign1, messages.MessageTypeSign2,
}

func NewFake(self party.ID, ids party.IDSlice, rounds int) *Fake {
	return &Fake{Self: self, IDs: ids, Types: FakeTypes[:rounds], FailErr: errors.New("injected failure")}
}

// Start returns the protocol's first round.
func (f *Fake) Start() state.Round {
	b, err := state.NewBaseRound(f.Self, f.IDs.Copy())
	vsym.Assert(err == nil, "base-round-accepted")
	return &fakeRound{b, f, 0}
}

type fakeRound struct {
	*state.BaseRound
	f *Fake
	n int
}

func (r *fakeRound) ProcessMessage(m *messages.Message) *state.Error {
	r.f.Log = append(r.f.Log, Event{EvProcess, r.n, m})
	if r.f.Fail && r.f.FailRound == r.n && r.f.FailFrom != 0 && m != nil && (m.From == r.f.FailFrom || r.f.FailAlso != 0 && m.From == r.f.FailAlso) {
		return state.NewError(r.f.Blame, r.f.FailErr)
	}
	return nil
}

func (r *fakeRound) GenerateMessages() ([]*messages.Message, *state.Error) {
	r.f.Log = append(r.f.Log, Event{EvGenerate, r.n, nil})
	if r.f.Fail && r.f.FailRound == r.n && r.f.FailFrom == 0 {
		return []*messages.Message{{}}, state.NewError(r.f.Blame, r.f.FailErr)
	}
	var out []*messages.Message
	for i := 0; i < r.f.sends(r.n); i++ {
		m := &messages.Message{Header: messages.Header{Type: r.f.Types[(r.n+1)%len(r.f.Types)], From: r.f.Self}}
		out = append(out, m)
	}
	r.f.Out = append(r.f.Out, out)
	return out, nil
}

func (r *fakeRound) NextRound() state.Round {
	r.f.Log = append(r.f.Log, Event{EvNext, r.n, nil})
	if r.n+1 >= len(r.f.Types) {
		return nil
	}
	return &fakeRound{r.BaseRound, r.f, r.n + 1}
}

func (r *fakeRound) AcceptedMessageTypes() []messages.MessageType {
	return append([]messages.MessageType{}, r.f.Types...)
}

func (r *fakeRound) Reset() { r.f.Log = append(r.f.Log, Event{EvReset, r.n, nil}) }

func (f *Fake) sends(round int) int {
	if f.Sends != nil {
		return f.Sends[round]
	}
	if round+1 < len(f.Types) {
		return 1
	}
	return 0
}

// Count counts recorded events of a kind.
func (f *Fake) Count(kind int) int {
	n := 0
	for _, e := range f.Log {
		if e.Kind == kind {
			n++
		}
	}
	return n
}

// CountIn counts recorded events of a kind in a round.
func (f *Fake) CountIn(kind, round int) int {
	n := 0
	for _, e := range f.Log {
		if e.Kind == kind && e.Round == round {
			n++
		}
	}
	return n
}
