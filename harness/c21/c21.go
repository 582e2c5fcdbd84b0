// Package c21: secrets are erased at the end of the protocol.
package c21

import (
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "2..3 parties, every threshold; thorough: every order in which maps are iterated; every order of delivering the messages of the other parties, processing after every delivery or only at the end; the end by completion, by any one message altered by an arbitrary amount, or by a timeout after any number of deliveries; all random scalars symbolic"

const Assumptions = "a secret counts as held when a scalar or its 32-byte encoding in reachable memory is identically equal to it, for all values of the random draws"

const limit = 400 * time.Millisecond


func lists() party.IDSlice {
	if vsym.Tier() == 1 {
		vsym.MapOrder(2)
	}
	if vsym.Choose("n3", 2) == 0 {
		return party.IDSlice{255, 256}
	}
	return party.IDSlice{2, 258, 65534}
}

func secret(name string) *ristretto.Scalar {
	s := vsym.Scalar(name)
	vsym.Assume(!lib.SZero(s))
	return s
}

// alter changes a message by an arbitrary amount.
func alter(m *messages.Message) *messages.Message {
	d := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(d))
	switch m.Type {
	case messages.MessageTypeKeyGen1:
		if vsym.Bool("response") {
			m.KeyGen1.Proof.R.Add(&m.KeyGen1.Proof.R, d)
		} else {
			// a commitment of the wrong degree
			cs := lib.Coefficients(m.KeyGen1.Commitments)
			m.KeyGen1.Commitments = lib.ExponentOf(append(cs, lib.Base(d)))
		}
	case messages.MessageTypeKeyGen2:
		m.KeyGen2.Share.Add(&m.KeyGen2.Share, d)
	case messages.MessageTypeSign1:
		if vsym.Bool("identity") {
			m.Sign1.Di.Set(ristretto.NewIdentityElement())
		} else {
			m.Sign1.Ei.Add(&m.Sign1.Ei, lib.Base(d))
		}
	case messages.MessageTypeSign2:
		m.Sign2.Zi.Add(&m.Sign2.Zi, d)
	}
	return m
}

// deliver hands the messages to st in any order and ends the protocol in some
// way. It reports whether it was by a timeout.
func deliver(st *state.State, in []*messages.Message, timeout bool) {
	bad := -1
	stop := len(in)
	if timeout {
		stop = vsym.Choose("deliveries", len(in)) // one is always missing
	} else {
		bad = vsym.Choose("altered", len(in)+1) - 1
	}
	every := vsym.Bool("process-every")
	done := map[int]bool{}
	for k := 0; k < stop; k++ {
		var left []int
		for i := range in {
			if !done[i] {
				left = append(left, i)
			}
		}
		i := left[vsym.Choose("order", len(left))]
		done[i] = true
		m := lib.Wire(in[i])
		if i == bad {
			m = alter(m)
		}
		_ = st.HandleMessage(m)
		if every {
			st.ProcessAll()
		}
	}
	if timeout {
		vsym.Advance(limit + limit/2)
	} else {
		st.ProcessAll()
	}
}

// CheckKeygen: key generation.
func CheckKeygen() {
	ids := lists()
	t := party.Size(1 + vsym.Choose("t", len(ids)-1))
	self := ids[vsym.Choose("self", len(ids))]
	timeout := vsym.Choose("timeout", 2) == 1
	d := time.Duration(0)
	if timeout {
		d = limit
	}
	st, out, err := frost.NewKeygenState(self, ids.Copy(), t, d)
	vsym.Assert(err == nil, "keygen-setup-accepted")
	secrets := map[string][]*ristretto.Scalar{}
	if timeout && vsym.Choose("never-started", 2) == 1 {
		vsym.Advance(limit + limit/2)
		vsym.Assert(st.IsFinished(), "protocol-ends")
		vsym.Cover("never-started")
		return
	}

	// the party's own randomness
	var draws []*ristretto.Scalar
	for i := 0; i <= int(t)+1; i++ {
		draws = append(draws, secret("draw"))
	}
	vsym.NextRand(draws...)
	m1 := st.ProcessAll()
	vsym.NoMoreRand()
	vsym.Assert(len(m1) == 1, "first-message-sent")
	secrets["own-randomness"] = draws

	// the other parties
	var others []*state.State
	for _, id := range ids {
		if id != self {
			s, _, err := frost.NewKeygenState(id, ids.Copy(), t, 0)
			vsym.Assert(err == nil, "keygen-setup-accepted")
			others = append(others, s)
			m1 = append(m1, s.ProcessAll()...)
		}
	}
	in := append([]*messages.Message{}, m1[1:]...)
	for _, s := range others {
		for _, m := range m1 {
			vsym.Assert(s.HandleMessage(lib.Wire(m)) == nil, "honest-message-accepted")
		}
		for _, m := range s.ProcessAll() {
			if m.To == self {
				in = append(in, m)
				x := lib.CopyS(&m.KeyGen2.Share)
				vsym.Assume(!lib.SZero(x))
				secrets["received-share"] = append(secrets["received-share"], x)
			}
		}
	}
	vsym.Assert(len(in) == 2*len(others), "honest-messages-sent")
	// the party's own share and partial sums with received ones
	cs := lib.Coefficients(m1[0].KeyGen1.Commitments)
	if f := polynomialOf(cs, draws); f != nil {
		x := lib.IDScalar(self)
		own := ristretto.NewScalar()
		for i := len(f) - 1; i >= 0; i-- {
			own = lib.SAdd(lib.SMul(own, x), f[i])
		}
		vsym.Assume(!lib.SZero(own))
		secrets["own-share"] = append(secrets["own-share"], own)
		sh := secrets["received-share"]
		for mask := 1; mask < 1<<uint(len(sh)); mask++ {
			sum := lib.CopyS(own)
			for i := range sh {
				if mask>>uint(i)&1 == 1 {
					sum = lib.SAdd(sum, sh[i])
				}
			}
			vsym.Assume(!lib.SZero(sum))
			secrets["sum-of-shares"] = append(secrets["sum-of-shares"], sum)
		}
	}

	deliver(st, in, timeout)
	check(st, secrets)
	if st.Err() != nil {
		vsym.Assert(out.SecretKey == nil && out.Public == nil, "no-output-after-abort")
		if timeout {
			vsym.Cover("timeout")
		} else {
			vsym.Cover("abort")
		}
		return
	}
	final := lib.CopyS(&out.SecretKey.Secret)
	vsym.Assume(!lib.SZero(final))
	vsym.Assert(!vsym.Reaches(st, final), "secret-erased/final-share")
	for _, k := range []string{"own-randomness", "own-share", "received-share"} {
		for _, s := range secrets[k] {
			vsym.Assert(!vsym.Reaches(out, s), "output-holds-nothing-else")
		}
	}
	vsym.Cover("finish")
}

// polynomialOf picks the polynomial's coefficients among the drawn scalars.
func polynomialOf(cs []*ristretto.Element, draws []*ristretto.Scalar) []*ristretto.Scalar {
	var f []*ristretto.Scalar
	for _, c := range cs {
		for _, s := range draws {
			if lib.EEq(lib.Base(s), c) {
				f = append(f, s)
				break
			}
		}
	}
	if len(f) != len(cs) {
		return nil // drawn in another way
	}
	return f
}

// check asserts that the ended protocol holds no secret.
func check(st *state.State, secrets map[string][]*ristretto.Scalar) {
	vsym.Assert(st.IsFinished(), "protocol-ends")
	for _, k := range []string{"own-randomness", "own-share", "received-share", "sum-of-shares", "nonce", "key-share"} {
		for _, s := range secrets[k] {
			vsym.Assert(!vsym.Reaches(st, s), "secret-erased/"+k)
		}
	}
}

// CheckSign: signing.
func CheckSign() {
	ids := lists()
	self := ids[vsym.Choose("self", len(ids))]
	timeout := vsym.Choose("timeout", 2) == 1
	d := time.Duration(0)
	if timeout {
		d = limit
	}
	// one more party than signers
	all := append(ids.Copy(), 600)
	_, shares := helpers.GenerateSecrets(party.NewIDSlice(all), party.Size(len(ids)-1))
	pub := helpers.GeneratePublic(party.Size(len(ids)-1), shares)
	sec := lib.CopyS(&shares[self].Secret)
	vsym.Assume(!lib.SZero(sec))
	st, out, err := frost.NewSignState(ids.Copy(), shares[self], pub, []byte("message"), d)
	vsym.Assert(err == nil, "sign-setup-accepted")
	pos := 0
	for i, id := range ids {
		if id == self {
			pos = i
		}
	}
	lam := lib.RefLagrange(lib.IDScalars(ids), pos, ristretto.NewScalar())
	secrets := map[string][]*ristretto.Scalar{"key-share": {sec, lib.SMul(lam, sec)}}
	if timeout && vsym.Choose("never-started", 2) == 1 {
		vsym.Advance(limit + limit/2)
		check(st, secrets)
		vsym.Cover("never-started")
		return
	}
	n1, n2 := secret("draw"), secret("draw")
	vsym.NextRand(n1, n2)
	m1 := st.ProcessAll()
	vsym.NoMoreRand()
	vsym.Assert(len(m1) == 1, "first-message-sent")
	secrets["nonce"] = []*ristretto.Scalar{n1, n2}
	var others []*state.State
	for _, id := range ids {
		if id != self {
			s := lib.NewSigner(ids, shares[id], pub, []byte("message"), 0).St
			others = append(others, s)
			m1 = append(m1, s.ProcessAll()...)
		}
	}
	in := append([]*messages.Message{}, m1[1:]...)
	for _, s := range others {
		for _, m := range m1 {
			vsym.Assert(s.HandleMessage(lib.Wire(m)) == nil, "honest-message-accepted")
		}
		in = append(in, s.ProcessAll()...)
	}
	vsym.Assert(len(in) == 2*len(others), "honest-messages-sent")
	deliver(st, in, timeout)
	check(st, secrets)
	if st.Err() != nil {
		vsym.Assert(out.Signature == nil, "no-output-after-abort")
		if timeout {
			vsym.Cover("timeout")
		} else {
			vsym.Cover("abort")
		}
		return
	}
	for _, k := range []string{"nonce", "key-share"} {
		for _, s := range secrets[k] {
			vsym.Assert(!vsym.Reaches(out, s), "output-holds-nothing-else")
		}
	}
	vsym.Cover("finish")
}
