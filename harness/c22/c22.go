// Package c22: concurrent use of a party.
package c22

import (
	"sync"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "an abstract protocol of 3 parties at its start, in its middle and its last round, used by up to 5 threads at once: two deliveries with processing (optionally one of them failing); one of waiting (one or two threads), querying, polling, a duplicate or early delivery, processing; and optionally a timeout; all schedules with up to 2 (thorough: 4) deviations from the default order, at synchronisation operations or where a thread blocks; deliveries against the timer with up to 2 (3) preemptions and every choice where a thread blocks; real key generation and signing of 2..3 parties, one or two threads per party, up to 2 (3) deviations; two of: a first step, a key generation, a dealt signing, storing and loading, in different sessions at once; data races: every order of each explored run's events that its synchronisation allows"

const Assumptions = "a callback of a timer runs at some point after the timer was due"

const timeout = 100 * time.Millisecond

func deviations(n int, two bool) int {
	d := 1
	if n == 2 && !two {
		d++
	}
	if vsym.Tier() == 1 {
		d++
	}
	return d
}

// kinds of third threads
const (
	waiter = iota
	querier
	poller
	duplicate
	early
	processor
	waiters
	kinds
)

func closed(st *state.State) bool {
	select {
	case <-st.Done():
		return true
	default:
		return false
	}
}

func msg(typ messages.MessageType, from party.ID) *messages.Message {
	return &messages.Message{Header: messages.Header{Type: typ, From: from}}
}

// CheckMachine: the state machine under concurrent calls.
func CheckMachine() {
	vsym.RaceCheck()
	ids := party.IDSlice{1, 256, 257}
	self := party.ID(256)
	rounds := 3
	f := lib.NewFake(self, ids, rounds)
	kind := vsym.Choose("kind", kinds)
	at := vsym.Choose("at", 3) // rounds processed before
	deep := vsym.Tier() == 1
	timed := (deep || kind == waiter) && vsym.Choose("timed", 2) == 1
	if (deep || kind == waiter && !timed || kind == querier) && vsym.Choose("fail", 2) == 1 {
		f.Fail, f.FailRound, f.FailFrom, f.Blame = true, 1, 1, 1
		if at == 2 {
			f.FailRound = 2
		}
	}
	to := time.Duration(0)
	if timed {
		to = timeout
	}
	st, err := state.NewBaseState(f.Start(), to)
	vsym.Assert(err == nil, "state-accepted")
	returned := 0 // messages sent so far
	if at > 0 {
		returned += len(st.ProcessAll())
	}
	for r := 1; r < at; r++ {
		for _, id := range ids {
			if id != self {
				vsym.Assert(st.HandleMessage(msg(f.Types[r], id)) == nil, "message-accepted")
			}
		}
		returned += len(st.ProcessAll())
	}
	typ := f.Types[1]
	if at == 2 {
		typ = f.Types[2]
	}
	ma, mb := msg(typ, 1), msg(typ, 257)
	dup := msg(typ, 257)
	next := msg(f.Types[2], 1)

	var wg sync.WaitGroup
	var sent [4]int
	var errA, errB, errD error
	woken := [2]error{}
	d := 2
	if kind == waiters {
		d = 1
	}
	if deep {
		d += 2
	}
	vsym.Deviate(d)
	run := func(i int, g func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			vsym.Pause()
			g()
		}()
	}
	run(0, func() { errA = st.HandleMessage(ma); sent[0] += len(st.ProcessAll()) })
	run(1, func() { errB = st.HandleMessage(mb); sent[1] += len(st.ProcessAll()) })
	var waiting sync.WaitGroup
	wait := func(i int) {
		waiting.Add(1)
		go func() {
			defer waiting.Done()
			vsym.Pause()
			woken[i] = st.WaitForError()
			vsym.Assert(st.IsFinished() && closed(st), "waiter-woken-at-the-end")
		}()
	}
	switch kind {
	case waiter:
		wait(0)
	case waiters:
		wait(0)
		wait(1)
	case querier:
		run(2, func() {
			e1 := st.Err()
			fin := st.IsFinished()
			e2 := st.Err()
			vsym.Assert(e1 == nil || e1 == e2 && fin, "queries-monotonic")
		})
	case poller:
		run(2, func() {
			if closed(st) {
				vsym.Assert(st.IsFinished(), "closed-means-finished")
				vsym.Assert(st.WaitForError() == st.Err(), "queries-monotonic")
			}
		})
	case duplicate:
		run(2, func() { errD = st.HandleMessage(dup) })
	case early:
		run(2, func() { errD = st.HandleMessage(next) })
	case processor:
		run(2, func() { sent[2] += len(st.ProcessAll()) })
	}
	if timed && vsym.Choose("now", 2) == 1 {
		run(3, func() { vsym.Advance(timeout + timeout/2) })
	}
	wg.Wait()
	vsym.Preempt(0)
	if kind == duplicate && st.Err() == nil {
		vsym.Assert((errB == nil) != (errD == nil) || f.CountIn(lib.EvProcess, 0) > 0 && st.IsFinished(), "one-of-two-duplicates-refused")
	}
	if st.Err() == nil && kind != duplicate && !(kind == early && at == 2) {
		vsym.Assert(errA == nil && errB == nil, "deliveries-accepted")
	}
	sequential(f, st, returned+sent[0]+sent[1]+sent[2], rounds)

	// bring it to an end
	for r := 1; r < rounds && !st.IsFinished(); r++ {
		for _, id := range ids {
			if id != self {
				_ = st.HandleMessage(msg(f.Types[r], id))
			}
		}
		returned += len(st.ProcessAll())
	}
	vsym.Assert(st.IsFinished() && closed(st), "protocol-ends")
	end := st.WaitForError()
	vsym.Assert(end == st.Err(), "queries-monotonic")
	waiting.Wait()
	for _, e := range woken[:] {
		if kind == waiters || kind == waiter && e != nil {
			vsym.Assert(e == end, "waiters-agree")
		}
	}
	sequential(f, st, returned+sent[0]+sent[1]+sent[2], rounds)
	switch {
	case end == nil:
		vsym.Cover("success")
	case lib.Blamed(end) == 0:
		vsym.Assert(timed, "timeout-only-when-timed")
		vsym.Cover("timeout")
	default:
		vsym.Assert(f.Fail && lib.Blamed(end) == 1, "blame")
		vsym.Cover("failure")
	}
}

// sequential checks that what the protocol saw is what some sequential order
// of the calls would show it, and that its messages were handed out once.
func sequential(f *lib.Fake, st *state.State, returned, rounds int) {
	round, gen := 0, false
	from := map[party.ID]bool{}
	ended := false
	for _, e := range f.Log {
		vsym.Assert(!ended, "nothing-after-reset")
		switch e.Kind {
		case lib.EvReset:
			ended = true
		case lib.EvProcess:
			vsym.Assert(e.Round == round && !gen, "rounds-in-order")
			if e.Msg != nil {
				vsym.Assert(e.Msg.Type == f.Types[round] && !from[e.Msg.From], "each-message-once")
				from[e.Msg.From] = true
			}
		case lib.EvGenerate:
			vsym.Assert(e.Round == round && !gen, "rounds-in-order")
			vsym.Assert(round == 0 || len(from) == len(f.IDs)-1, "round-complete-before-next")
			gen = true
		case lib.EvNext:
			vsym.Assert(e.Round == round && gen, "rounds-in-order")
			round++
			gen = false
			from = map[party.ID]bool{}
		}
	}
	vsym.Assert(ended == st.IsFinished(), "reset-exactly-at-the-end")
	all := 0
	for _, o := range f.Out {
		all += len(o)
	}
	if st.Err() == nil {
		vsym.Assert(returned == all, "messages-handed-out-once")
		vsym.Assert(!st.IsFinished() || round == rounds, "success-after-all-rounds")
	} else {
		vsym.Assert(returned <= all, "messages-handed-out-once")
	}
}

// CheckSetup: a timeout that is due at once.
func CheckSetup() {
	vsym.RaceCheck()
	ids := party.IDSlice{1, 256, 257}
	f := lib.NewFake(256, ids, 3)
	vsym.Preempt(1 + 2*vsym.Tier())
	st, err := state.NewBaseState(f.Start(), 1)
	vsym.Assert(err == nil, "state-accepted")
	done := make(chan bool)
	go func() {
		vsym.Pause()
		_ = st.HandleMessage(msg(f.Types[1], 1))
		st.ProcessAll()
		done <- true
	}()
	e := st.WaitForError()
	<-done
	vsym.Preempt(0)
	vsym.Assert(e != nil && lib.Blamed(e) == 0 && st.IsFinished(), "timeout-ends-the-protocol")
	vsym.Assert(f.Count(lib.EvReset) == 1, "reset-exactly-at-the-end")
	vsym.Cover("setup")
}

// CheckTimer: deliveries racing with the timer.
func CheckTimer() {
	vsym.RaceCheck()
	ids := party.IDSlice{1, 256}
	f := lib.NewFake(256, ids, 3)
	st, err := state.NewBaseState(f.Start(), timeout)
	vsym.Assert(err == nil, "state-accepted")
	n := len(st.ProcessAll())
	vsym.Preempt(2 + vsym.Tier())
	var wg sync.WaitGroup
	wg.Add(3)
	go func() {
		defer wg.Done()
		vsym.Pause()
		if st.HandleMessage(msg(f.Types[1], 1)) == nil {
			n += len(st.ProcessAll())
		}
		if st.HandleMessage(msg(f.Types[2], 1)) == nil {
			n += len(st.ProcessAll())
		}
	}()
	go func() {
		defer wg.Done()
		vsym.Pause()
		vsym.Advance(timeout + timeout/2)
		vsym.Assert(st.IsFinished(), "ends-in-time")
	}()
	var e error
	go func() {
		defer wg.Done()
		vsym.Pause()
		e = st.WaitForError()
	}()
	wg.Wait()
	vsym.Preempt(0)
	vsym.Assert(e == st.Err() && closed(st), "waiters-agree")
	sequential(f, st, n, 3)
	if e == nil {
		vsym.Cover("success")
	} else {
		vsym.Assert(lib.Blamed(e) == 0, "blame")
		vsym.Cover("timeout")
	}
}

// drive runs a party in its own thread (or two) until it is done.
func drive(id party.ID, st *state.State, boxes map[party.ID]chan *messages.Message, two bool, wg *sync.WaitGroup) {
	send := func(ms []*messages.Message) {
		for _, m := range ms {
			for to, b := range boxes {
				if to != id && (m.To == 0 || m.To == to) {
					b <- m
				}
			}
		}
	}
	loop := func() {
		defer wg.Done()
		vsym.Pause()
		send(st.ProcessAll())
		for {
			select {
			case m := <-boxes[id]:
				vsym.Assert(st.HandleMessage(m) == nil, "honest-message-accepted")
				send(st.ProcessAll())
			case <-st.Done():
				return
			}
		}
	}
	wg.Add(1)
	go loop()
	if two {
		wg.Add(1)
		go loop()
	}
}

func boxes(ids party.IDSlice) map[party.ID]chan *messages.Message {
	r := map[party.ID]chan *messages.Message{}
	for _, id := range ids {
		r[id] = make(chan *messages.Message, 20)
	}
	return r
}

func lists() party.IDSlice {
	if vsym.Choose("n", 2) == 0 {
		return party.IDSlice{255, 256}
	}
	return party.IDSlice{1, 256, 65535}
}

// CheckKeygen: key generation, all parties at once in one process; messages
// are passed by reference.
func CheckKeygen() {
	vsym.RaceCheck()
	ids := lists()
	t := party.Size(len(ids) - 1)
	two := len(ids) == 2 && vsym.Choose("two", 2) == 1
	bx := boxes(ids)
	var wg sync.WaitGroup
	sts := map[party.ID]*state.State{}
	outs := map[party.ID]*keygen.Output{}
	for _, id := range ids {
		st, out, err := frost.NewKeygenState(id, ids, t, 0)
		vsym.Assert(err == nil, "keygen-setup-accepted")
		sts[id], outs[id] = st, out
	}
	vsym.Deviate(deviations(len(ids), two))
	for _, id := range ids {
		drive(id, sts[id], bx, two, &wg)
	}
	var first *eddsa.Public
	var ys []*ristretto.Scalar
	for _, id := range ids {
		vsym.Assert(sts[id].WaitForError() == nil, "key-generation-finishes")
		o := outs[id]
		vsym.Assert(o.Public != nil && o.SecretKey != nil, "output-there-after-waiting")
		if first == nil {
			first = o.Public
		}
		vsym.Assert(first.Equal(o.Public), "parties-agree")
		vsym.Assert(lib.EEq(lib.Base(&o.SecretKey.Secret), first.Shares[id]), "share-fits")
		ys = append(ys, lib.CopyS(&o.SecretKey.Secret))
	}
	gk := lib.Base(lib.Interpolate(ids, ys, ristretto.NewScalar()))
	vsym.Assert(first.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(gk)), "shares-fit-the-key")
	wg.Wait()
	vsym.Cover("keygen")
}

// CheckSign: signing, all parties at once in one process, with the same public
// material.
func CheckSign() {
	vsym.RaceCheck()
	ids := lists()
	t := party.Size(len(ids) - 1)
	_, shares := helpers.GenerateSecrets(ids, t)
	pub := helpers.GeneratePublic(t, shares)
	two := len(ids) == 2 && vsym.Choose("two", 2) == 1
	m := []byte("message")
	bx := boxes(ids)
	var wg, sg sync.WaitGroup
	sts := map[party.ID]*state.State{}
	outs := map[party.ID]*sign.Output{}
	var mu sync.Mutex
	vsym.Deviate(deviations(len(ids), two))
	// set up concurrently, too
	for _, id := range ids {
		id := id
		sg.Add(1)
		go func() {
			defer sg.Done()
			st, out, err := frost.NewSignState(ids, shares[id], pub, m, 0)
			vsym.Assert(err == nil, "sign-setup-accepted")
			mu.Lock()
			sts[id], outs[id] = st, out
			mu.Unlock()
		}()
	}
	sg.Wait()
	for _, id := range ids {
		drive(id, sts[id], bx, two, &wg)
	}
	for _, id := range ids {
		vsym.Assert(sts[id].WaitForError() == nil, "signing-finishes")
		vsym.Assert(outs[id].Signature != nil && pub.GroupKey.Verify(m, outs[id].Signature), "signature-valid")
	}
	wg.Wait()
	vsym.Cover("sign")
}

// task is something with its own party objects from beginning to end.
func task(kind int, ids party.IDSlice) {
	switch kind {
	case 0: // the first step of a key generation
		st, _, err := frost.NewKeygenState(ids[0], ids, 1, 0)
		vsym.Assert(err == nil, "keygen-setup-accepted")
		vsym.Assert(len(st.ProcessAll()) == 1, "session-starts")
	case 1: // a key generation
		k, _ := lib.RunKeygen(ids, 1)
		for _, x := range k {
			vsym.Assert(x.St.WaitForError() == nil && x.Out.Public.Equal(k[0].Out.Public), "session-completes")
		}
	case 2: // dealing, signing and verifying
		_, secrets := helpers.GenerateSecrets(ids, 1)
		pub := helpers.GeneratePublic(1, secrets)
		m := []byte{1, 2, 3}
		sg := lib.NewSign(ids, secrets, pub, m, 0)
		sts := lib.SGStates(sg)
		lib.Round(sts, lib.Round(sts, lib.Round(sts, nil)))
		for _, x := range sg {
			vsym.Assert(x.St.WaitForError() == nil && pub.GroupKey.Verify(m, x.Out.Signature), "session-completes")
		}
	case 3: // storing and loading key material
		_, secrets := helpers.GenerateSecrets(ids, 1)
		pub := helpers.GeneratePublic(1, secrets)
		b, err := pub.MarshalJSON()
		vsym.Assert(err == nil, "material-stored")
		var p eddsa.Public
		vsym.Assert(p.UnmarshalJSON(b) == nil && p.Equal(pub), "material-loaded")
	}
}

// CheckSessions: different sessions in one process at the same time.
func CheckSessions() {
	vsym.RaceCheck()
	ids := party.IDSlice{1, 256}
	a := vsym.Choose("first", 4)
	b := vsym.Choose("second", 4)
	vsym.Assume(a <= b)
	vsym.Deviate(1)
	var wg sync.WaitGroup
	for _, k := range []int{a, b} {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			vsym.Pause()
			task(k, ids)
		}()
	}
	wg.Wait()
	vsym.Cover("sessions")
}
