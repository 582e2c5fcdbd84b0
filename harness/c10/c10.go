// Package c10: arbitrary bytes from the network never crash a party.
package c10

import (
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "every buffer of length 0..171 (quick) or 0..235, all bytes arbitrary, into every decoder; every buffer of the lengths 0..7, 37, 38, 69, 70, 71, 102, 103, 134, 135, 166, 167 from the network into a running 3-party key generation or signing at each round"

func maxLen() int {
	if vsym.Tier() > 0 {
		return 236
	}
	return 172
}

// CheckMessage decodes arbitrary bytes; a decoded message is complete.
func CheckMessage() {
	n := vsym.Choose("len", maxLen())
	in := vsym.Bytes("buf", n)
	var m messages.Message
	if m.UnmarshalBinary(in) != nil {
		// nothing half-built is left behind
		if m.KeyGen1 != nil {
			vsym.Assert(m.KeyGen1.Proof != nil && m.KeyGen1.Commitments != nil, "no-half-built-message")
			_, err := m.KeyGen1.MarshalBinary()
			vsym.Assert(err == nil && len(lib.Coefficients(m.KeyGen1.Commitments)) > 0, "no-half-built-message")
		}
		if n == 71 || n == 38 || n == 103 {
			m.Size()
			_, _ = m.MarshalBinary()
			vsym.Assert(!m.Equal(&messages.Message{}), "rejected-message-equals-nothing")
		}
		vsym.Cover("rejected")
		return
	}
	vsym.Cover("accepted")
	vsym.Assert(m.From != 0, "sender-not-zero")
	vsym.Assert(m.IsBroadcast() == (m.Type != messages.MessageTypeKeyGen2), "addressee-fits-type")
	switch m.Type {
	case messages.MessageTypeKeyGen1:
		vsym.Assert(m.KeyGen1 != nil && m.KeyGen1.Proof != nil && m.KeyGen1.Commitments != nil, "accepted-message-has-payload")
		deg := m.KeyGen1.Commitments.Degree()
		vsym.Assert(n == 5+64+2+32*(int(deg)+1), "length-fits-degree")
		vsym.Assert(in[5+64] == byte(deg>>8) && in[5+65] == byte(deg), "degree-bytes")
		m.KeyGen1.Commitments.Constant()
		m.KeyGen1.Commitments.Evaluate(party.ID(3).Scalar())
	case messages.MessageTypeKeyGen2:
		vsym.Assert(m.KeyGen2 != nil && n == 5+32, "accepted-message-has-payload")
	case messages.MessageTypeSign1:
		vsym.Assert(m.Sign1 != nil && n == 5+64, "accepted-message-has-payload")
	case messages.MessageTypeSign2:
		vsym.Assert(m.Sign2 != nil && n == 5+32, "accepted-message-has-payload")
	default:
		vsym.Assert(false, "accepted-message-has-known-type")
	}
}

// CheckDecoders feeds arbitrary bytes to every other decoder.
func CheckDecoders() {
	which := vsym.Choose("decoder", 11)
	n := vsym.Choose("len", 104)
	in := vsym.Bytes("buf", n)
	switch which {
	case 0:
		var h messages.Header
		if h.UnmarshalBinary(in) == nil {
			vsym.Assert(n >= 5, "header-length")
			vsym.Assert(h.From != 0 && h.Type >= 1 && h.Type <= 4, "header-valid")
		}
	case 1:
		var m messages.KeyGen1
		if m.UnmarshalBinary(in) == nil {
			vsym.Assert(n >= 98, "keygen1-length")
			m.Commitments.Constant()
		}
	case 2:
		var m messages.KeyGen2
		vsym.Assert(m.UnmarshalBinary(in) != nil || n == 32, "keygen2-length")
	case 3:
		var m messages.Sign1
		vsym.Assert(m.UnmarshalBinary(in) != nil || n == 64, "sign1-length")
	case 4:
		var m messages.Sign2
		vsym.Assert(m.UnmarshalBinary(in) != nil || n == 32, "sign2-length")
	case 5:
		var e polynomial.Exponent
		if e.UnmarshalBinary(in) == nil {
			vsym.Assert(n == 2+32*(int(e.Degree())+1), "exponent-length")
			e.Constant()
			e.Evaluate(party.ID(3).Scalar())
			e.Copy()
		}
	case 6:
		var p zk.Schnorr
		vsym.Assert(p.UnmarshalBinary(in) != nil || n == 64, "schnorr-length")
	case 7:
		var s eddsa.Signature
		vsym.Assert(s.UnmarshalBinary(in) != nil || n == 64, "signature-length")
	case 8:
		var s eddsa.SecretShare
		vsym.Assert(s.UnmarshalBinary(in) != nil || n == 34, "secret-share-length")
	case 9:
		_, err := party.FromBytes(in)
		vsym.Assert((err != nil) == (n < 2), "id-length")
	case 10:
		var e ristretto.Element
		_, err := e.SetCanonicalBytes(in)
		vsym.Assert(err != nil || n == 32, "element-length")
	}
	vsym.Cover("decoder-done")
}

var lengths = []int{37, 69, 71, 103, 135, 38, 70, 102, 134, 166, 167, 0, 1, 4, 5, 6, 7}

// attack delivers raw bytes to a party and lets it process.
func attack(s *state.State, label string) {
	n := lengths[vsym.Choose("len", len(lengths))]
	in := vsym.Bytes("buf", n)
	_, err := helpers.PartyRoutine([][]byte{in}, s)
	if err != nil {
		vsym.Cover("party-rejects")
	} else {
		vsym.Cover("party-accepts")
	}
	_, _ = helpers.PartyRoutine(nil, s)
}

// CheckKeygenParty: a key generation party at round 0, 1 or 2 receives
// arbitrary bytes.
func CheckKeygenParty() {
	k := lib.NewKeygen(party.IDSlice{1, 2, 3}, 1, 0)
	sts := lib.KGStates(k)
	round := vsym.Choose("round", 3)
	victim := k[0].St
	var out []*messages.Message
	if round >= 1 {
		out = lib.Round(sts, nil)
	}
	if round == 2 {
		out = lib.Round(sts, out)
	}
	// the honest third party's message arrives first
	for _, m := range out {
		if m.From == 3 {
			_ = victim.HandleMessage(lib.Wire(m))
		}
	}
	attack(victim, "keygen")
}

// CheckSignParty: the same for a signer.
func CheckSignParty() {
	ids := party.IDSlice{1, 2, 3}
	_, secrets := helpers.GenerateSecrets(ids, 1)
	pub := helpers.GeneratePublic(1, secrets)
	sg := lib.NewSign(ids, secrets, pub, []byte("message"), 0)
	sts := lib.SGStates(sg)
	round := vsym.Choose("round", 3)
	victim := sg[0].St
	var out []*messages.Message
	if round >= 1 {
		out = lib.Round(sts, nil)
	}
	if round == 2 {
		out = lib.Round(sts, out)
	}
	for _, m := range out {
		if m.From == 3 {
			_ = victim.HandleMessage(lib.Wire(m))
		}
	}
	attack(victim, "sign")
}

var _ = frost.NewKeygenState
