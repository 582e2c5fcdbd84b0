// Package c27: setting up protocols.
package c27

import (
	"bytes"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "key generation: lists of 0..4 (thorough: 5) arbitrary 16-bit identifiers in any order, also invalid ones, any identifier for oneself, any threshold; lists of 12 and the numbers up to 36 (thorough 70) that the code treats specially, with one entry replaced by anything, one list of 258, ascending, descending or rotated; signing: the same lists of 0..4 (5) identifiers for material of three parties, of 0..3 for two arbitrary parties; any identifier of the share; runs of 2..3 parties that were given the same identifiers in any orders, each its own"

const Assumptions = "the secret and public material of signing comes from one sharing"

// list is a list of n arbitrary identifiers.
func list(n int) party.IDSlice {
	ids := make(party.IDSlice, n)
	for i := range ids {
		ids[i] = party.ID(vsym.U16("id"))
	}
	return ids
}

// sound: no identifier is zero or occurs twice.
func sound(ids party.IDSlice) bool {
	ok := true
	for i, a := range ids {
		if a == 0 {
			ok = false
		}
		for _, b := range ids[:i] {
			if a == b {
				ok = false
			}
		}
	}
	return ok
}

func has(ids party.IDSlice, id party.ID) bool {
	r := false
	for _, a := range ids {
		if a == id {
			r = true
		}
	}
	return r
}

// subset: a is contained in b.
func subset(a, b party.IDSlice) bool {
	for _, id := range a {
		if !has(b, id) {
			return false
		}
	}
	return true
}

func keygenWith(self party.ID, ids party.IDSlice, t party.Size, timeout time.Duration) {
	ok := sound(ids) && has(ids, self) && t >= 1 && int(t) < len(ids)
	given := ids.Copy()
	var st *state.State
	var out *keygen.Output
	var err error
	crash := vsym.Panics(func() { st, out, err = frost.NewKeygenState(self, given, t, timeout) })
	vsym.Assert(!crash, "setup-does-not-crash")
	vsym.Assert(lib.SameIDs(ids, given), "list-is-untouched")
	vsym.Assert((err == nil) == ok, "accepted-exactly-if-it-can-run")
	if err != nil {
		vsym.Assert(st == nil && out == nil, "nothing-but-the-error-when-refused")
		vsym.Cover("refused")
		return
	}
	vsym.Assert(st != nil && out != nil, "state-and-output-when-accepted")
	vsym.Assert(!st.IsFinished() && st.Err() == nil, "accepted-run-is-under-way")
	// what happens to the list afterwards does not matter
	for i := range given {
		given[i] = 0
	}
	m := st.ProcessAll()
	vsym.Assert(len(m) == 1 && m[0].Type == messages.MessageTypeKeyGen1 && m[0].From == self && m[0].IsBroadcast(), "accepted-run-starts")
	vsym.Assert(m[0].KeyGen1.Commitments.Degree() == t, "polynomial-of-the-threshold")
	vsym.Assert(!st.IsFinished() && st.Err() == nil, "accepted-run-waits-for-others")
	vsym.Cover("accepted")
	vsym.Assert(len(st.ProcessAll()) == 0 && !st.IsFinished(), "still-waits-for-others")
	// it waits for exactly the other parties
	id := party.ID(vsym.U16("sender"))
	err = st.HandleMessage(messages.NewKeyGen1(id, m[0].KeyGen1.Proof, m[0].KeyGen1.Commitments))
	vsym.Assert((err == nil) == has(ids, id), "listens-to-the-listed-parties")
	if err == nil && id != self {
		vsym.Cover("heard")
	}
}

// CheckKeygen: any list.
func CheckKeygen() {
	n := vsym.Choose("n", 5+vsym.Tier())
	ids := list(n)
	timeout := time.Duration(0)
	if vsym.Bool("timed") {
		timeout = time.Hour
	}
	keygenWith(party.ID(vsym.U16("self")), ids, party.Size(vsym.U16("t")), timeout)
}

// CheckKeygenMany: longer lists with one arbitrary entry.
func CheckKeygenMany() {
	vsym.Deep()
	n := vsym.Count("n", lib.Limit(), 12, 258)
	t := party.Size(vsym.Count("t", n-1, 1, n-1))
	ids := arrange(lib.Many(n), vsym.Choose("order", 3))
	odd := vsym.Choose("odd", 4)
	vsym.Assume(n < 200 || odd == 0 && int(t) == n-1)
	switch odd {
	case 0:
	case 1:
		ids[0] = party.ID(vsym.U16("id"))
	case 2:
		ids[n/2] = party.ID(vsym.U16("id"))
	case 3:
		ids[n-1] = party.ID(vsym.U16("id"))
	}
	self := ids[n/3]
	keygenWith(self, ids, t, 0)
}

func arrange(ids party.IDSlice, k int) party.IDSlice {
	n := len(ids)
	r := make(party.IDSlice, n)
	for i := range ids {
		switch k {
		case 0:
			r[i] = ids[i]
		case 1:
			r[i] = ids[n-1-i]
		default:
			r[i] = ids[(i+n/2)%n]
		}
	}
	return r
}

// permute returns the identifiers in an arbitrary order.
func permute(ids party.IDSlice) party.IDSlice {
	r := ids.Copy()
	for i := len(r) - 1; i > 0; i-- {
		for j := 0; j < i; j++ {
			if vsym.Bool("swap") {
				r[i], r[j] = r[j], r[i]
				break
			}
		}
	}
	return r
}

// CheckKeygenRuns: everybody may order the parties differently.
func CheckKeygenRuns() {
	ids := lib.IDSets[[]int{0, 1, 3, 5}[vsym.Choose("set", 2+2*vsym.Tier())]]
	if vsym.Bool("three") {
		ids = party.IDSlice{2, 258, 65534}
	}
	t := party.Size(1 + vsym.Choose("t", len(ids)-1))
	var k []*lib.KG
	for _, id := range ids {
		s, o, err := frost.NewKeygenState(id, permute(ids), t, 0)
		vsym.Assert(err == nil, "any-order-accepted")
		k = append(k, &lib.KG{ID: id, St: s, Out: o})
	}
	sts := lib.KGStates(k)
	lib.Round(sts, lib.Round(sts, lib.Round(sts, nil)))
	for _, x := range k {
		vsym.Assert(x.St.IsFinished() && x.St.WaitForError() == nil, "any-order-completes")
		vsym.Assert(x.Out.Public != nil && x.Out.SecretKey != nil, "output-present")
		vsym.Assert(x.Out.Public.Equal(k[0].Out.Public), "same-public-output")
		vsym.Assert(lib.SameIDs(x.Out.Public.PartyIDs, ids), "parties-in-ascending-order")
		vsym.Assert(x.Out.SecretKey.ID == x.ID && lib.EEq(lib.Base(&x.Out.SecretKey.Secret), x.Out.Public.Shares[x.ID]), "own-share")
	}
	vsym.Cover("completed")
}

func material() (party.IDSlice, map[party.ID]*eddsa.SecretShare, *eddsa.Public, party.Size) {
	ids := party.IDSlice{3, 255, 65535}
	t := party.Size(1 + vsym.Choose("t", 2))
	_, secrets := helpers.GenerateSecrets(ids, t)
	return ids, secrets, helpers.GeneratePublic(t, secrets), t
}

// CheckSign: any list of signers and any identifier of the share.
func CheckSign() {
	all, _, pub, _ := material()
	if vsym.Bool("symbolic") {
		all = lib.SymIDs(2)
		_, secrets := helpers.GenerateSecrets(all, 1)
		pub = helpers.GeneratePublic(1, secrets)
	}
	n := vsym.Choose("n", 5+vsym.Tier())
	if len(all) == 2 {
		vsym.Assume(n <= 3)
	}
	ids := list(n)
	self := party.ID(vsym.U16("self"))
	sec := vsym.Scalar("share")
	vsym.Assume(!lib.SZero(sec))
	own := eddsa.NewSecretShare(self, lib.CopyS(sec))
	ok := sound(ids) && has(ids, self) && subset(ids, all)
	given := ids.Copy()
	msg := vsym.Bytes("message", 3)
	kept := append([]byte{}, msg...)
	shares := map[party.ID]*ristretto.Element{}
	for id, s := range pub.Shares {
		shares[id] = lib.CopyE(s)
	}
	gk := append([]byte{}, pub.GroupKey.ToEd25519()...)

	var st *state.State
	var out *sign.Output
	var err error
	crash := vsym.Panics(func() { st, out, err = frost.NewSignState(given, own, pub, msg, 0) })
	vsym.Assert(!crash, "setup-does-not-crash")
	vsym.Assert(lib.SameIDs(ids, given), "list-is-untouched")
	vsym.Assert(bytes.Equal(msg, kept), "message-is-untouched")
	vsym.Assert(own.ID == self && lib.SEq(&own.Secret, sec) && lib.EEq(&own.Public, lib.Base(sec)), "share-is-untouched")
	vsym.Assert(lib.SameIDs(pub.PartyIDs, all) && len(pub.Shares) == len(all) && bytes.Equal(pub.GroupKey.ToEd25519(), gk), "public-material-is-untouched")
	for _, id := range all {
		vsym.Assert(lib.EEq(pub.Shares[id], shares[id]), "public-shares-are-untouched")
	}
	vsym.Assert((err == nil) == ok, "accepted-exactly-if-it-can-run")
	if err != nil {
		vsym.Assert(st == nil && out == nil, "nothing-but-the-error-when-refused")
		vsym.Cover("refused")
		return
	}
	vsym.Assert(st != nil && out != nil, "state-and-output-when-accepted")
	vsym.Assert(!st.IsFinished() && st.Err() == nil, "accepted-run-is-under-way")
	for i := range given {
		given[i] = 0
	}
	m := st.ProcessAll()
	vsym.Cover("accepted")
	if n == 1 {
		return // nobody to wait for, and too few to sign
	}
	vsym.Assert(len(m) == 1 && m[0].Type == messages.MessageTypeSign1 && m[0].From == self && m[0].IsBroadcast(), "accepted-run-starts")
	id := party.ID(vsym.U16("sender"))
	err = st.HandleMessage(messages.NewSign1(id, &m[0].Sign1.Di, &m[0].Sign1.Ei))
	vsym.Assert((err == nil) == has(ids, id), "listens-to-the-listed-parties")
	if err == nil && id != self {
		vsym.Cover("heard")
	}
}

// CheckSignRuns: everybody may order the signers differently.
func CheckSignRuns() {
	all, secrets, pub, t := material()
	signers := all
	if int(t) == 1 && vsym.Bool("two") {
		signers = all[vsym.Choose("first", 2):][:2]
	}
	msg := vsym.Bytes("message", 4)
	var k []*lib.SG
	for _, id := range signers {
		s, o, err := frost.NewSignState(permute(signers), secrets[id], pub, msg, 0)
		vsym.Assert(err == nil, "any-order-accepted")
		k = append(k, &lib.SG{ID: id, St: s, Out: o})
	}
	sts := lib.SGStates(k)
	lib.Round(sts, lib.Round(sts, lib.Round(sts, nil)))
	for _, x := range k {
		vsym.Assert(x.St.IsFinished() && x.St.WaitForError() == nil, "any-order-completes")
		vsym.Assert(x.Out.Signature != nil && pub.GroupKey.Verify(msg, x.Out.Signature), "signature-valid")
	}
	vsym.Cover("completed")
}
