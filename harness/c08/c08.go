// Package c08: verification agrees with standard Ed25519.
package c08

import (
	"crypto/ed25519"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "any key, nonce point (every internal representative), response; messages of 0, 1, 63, 64, 65, 128 arbitrary bytes, and of 1000, 65536 and all lengths (up to 2^17) that the code compares with or sizes buffers by, and their neighbours, with arbitrary bytes at the beginning, in the middle and at the end; one valid and one changed signature verified in any order; the Ed25519 encoding of elements also over a field of 29 (thorough: and 37, 53, 61, 101) elements, all points of the even subgroup in all extended coordinates"

func message(name string) []byte {
	return lib.Message(name, vsym.Length("len", 1<<17, 0, 1, 63, 64, 65, 128, 1000, 65536))
}

func key(x *ristretto.Scalar) *eddsa.PublicKey { return eddsa.NewPublicKeyFromPoint(lib.Base(x)) }

// make a signature with any nonce; R is shifted by a known amount, so that it
// covers valid and invalid signatures.
func make_(x *ristretto.Scalar, pk *eddsa.PublicKey, msg []byte) *eddsa.Signature {
	r := vsym.Scalar("nonce")
	var s eddsa.Signature
	s.R.Set(lib.Base(r))
	c := eddsa.ComputeChallenge(&s.R, pk, msg)
	s.S.Set(lib.SAdd(r, lib.SMul(c, x)))
	return &s
}

// CheckValid: a signature is valid for us exactly if it is for Ed25519.
func CheckValid() {
	x := vsym.Scalar("key")
	pk := key(x)
	msg := message("message")
	s := make_(x, pk, msg)
	d := vsym.Scalar("delta")
	s.S.Set(lib.SAdd(&s.S, d))
	want := lib.SZero(d)
	before := lib.CopyE(&s.R)
	vsym.Assert(pk.Verify(msg, s) == want, "verify-decides-equation")
	vsym.Assert(ed25519.Verify(pk.ToEd25519(), msg, s.ToEd25519()) == want, "ed25519-agrees")
	vsym.Assert(pk.Verify(msg, s) == want, "verify-repeatable")
	vsym.Assert(lib.EEq(before, &s.R) && lib.EEq(lib.Base(x), lib.Base(x)), "verify-leaves-signature-alone")
	if want {
		vsym.Cover("valid")
	} else {
		vsym.Cover("invalid")
	}
}

// CheckOther: a signature does not verify for another message, key or nonce
// point.
func CheckOther() {
	x := vsym.Scalar("key")
	pk := key(x)
	msg := message("message")
	s := make_(x, pk, msg)
	pk2, msg2 := pk, msg
	d := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(d))
	switch vsym.Choose("what", 5) {
	case 0:
		vsym.Assume(!lib.SZero(x))
		msg2 = message("message2")
		vsym.Assume(!lib.BytesEq(msg, msg2))
	case 1:
		pk2 = key(lib.SAdd(x, d))
	case 2:
		s.R.Set(lib.EAdd(&s.R, lib.Base(d)))
	case 3: // nonce point and response shifted together
		vsym.Assume(!lib.SZero(x))
		s.R.Set(lib.EAdd(&s.R, lib.Base(d)))
		s.S.Set(lib.SAdd(&s.S, d))
	case 4: // key and response shifted together
		c := eddsa.ComputeChallenge(&s.R, pk, msg)
		pk2 = key(lib.SAdd(x, d))
		s.S.Set(lib.SAdd(&s.S, lib.SMul(c, d)))
		vsym.Assume(!lib.SZero(lib.SAdd(x, d)))
	}
	vsym.Assert(!pk2.Verify(msg2, s), "signature-bound-to-key-message-nonce")
	vsym.Assert(!ed25519.Verify(pk2.ToEd25519(), msg2, s.ToEd25519()), "signature-bound-ed25519")
	vsym.Cover("other")
}

// CheckHistory: what was verified before does not matter.
func CheckHistory() {
	x := vsym.Scalar("key")
	vsym.Assume(!lib.SZero(x))
	pk := key(x)
	msg := lib.Message("message", 3)
	s := make_(x, pk, msg)
	d := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(d))
	pk2, msg2, s2 := pk, msg, &eddsa.Signature{R: s.R, S: s.S}
	switch vsym.Choose("what", 6) {
	case 0:
		s2.S.Set(lib.SAdd(&s.S, d))
	case 1:
		s2.R.Set(lib.EAdd(&s.R, lib.Base(d)))
	case 2:
		s2.R.Set(lib.EAdd(&s.R, lib.Base(d)))
		s2.S.Set(lib.SAdd(&s.S, d))
	case 3:
		msg2 = lib.Message("message2", 3)
		vsym.Assume(!lib.BytesEq(msg, msg2))
	case 4:
		pk2 = key(lib.SAdd(x, d))
	case 5: // the same objects with new contents
		s2, msg2 = s, msg
		vsym.Assert(pk.Verify(msg, s), "valid-first")
		vsym.Assert(ed25519.Verify(pk.ToEd25519(), msg, s.ToEd25519()), "valid-first-ed25519")
		s.S.Set(lib.SAdd(&s.S, d))
		vsym.Assert(!pk.Verify(msg, s), "changed-signature-rejected")
		vsym.Assert(!ed25519.Verify(pk.ToEd25519(), msg, s.ToEd25519()), "changed-signature-rejected-ed25519")
		s.S.Set(lib.SSub(&s.S, d))
		vsym.Assert(pk.Verify(msg, s), "valid-again")
		msg[1] ^= 1 + vsym.U8("change")&0x7f
		vsym.Assert(!pk.Verify(msg, s), "changed-message-rejected")
		vsym.Cover("in place")
		return
	}
	if vsym.Choose("order", 2) == 0 {
		vsym.Assert(pk.Verify(msg, s), "valid-first")
		vsym.Assert(!pk2.Verify(msg2, s2), "invalid-after-valid")
	} else {
		vsym.Assert(!pk2.Verify(msg2, s2), "invalid-first")
		vsym.Assert(pk.Verify(msg, s), "valid-after-invalid")
		vsym.Assert(!pk2.Verify(msg2, s2), "invalid-after-valid")
	}
	vsym.Assert(ed25519.Verify(pk.ToEd25519(), msg, s.ToEd25519()), "valid-ed25519")
	vsym.Assert(!ed25519.Verify(pk2.ToEd25519(), msg2, s2.ToEd25519()), "invalid-ed25519")
	vsym.Cover("history")
}

// CheckForge: values fixed before the challenge never verify.
func CheckForge() {
	A, R, S := vsym.Element("A"), vsym.Element("R"), vsym.Scalar("S")
	vsym.Assume(!lib.EZero(A))
	pk := eddsa.NewPublicKeyFromPoint(A)
	msg := message("message")
	s := &eddsa.Signature{R: *R, S: *S}
	vsym.Assert(!pk.Verify(msg, s), "forgery-rejected")
	vsym.Cover("forge")
}

// CheckRepresentation: the internal representative of a point does not matter.
func CheckRepresentation() {
	P := vsym.Element("P")
	Q := vsym.Element("torsion")
	vsym.Assume(lib.EZero(Q))
	P2 := lib.EAdd(P, Q) // same element, any of the four representatives
	R := vsym.Element("R")
	R2 := lib.EAdd(R, Q)
	vsym.Assert(lib.EEq(P, P2), "same-element")
	vsym.Assert(lib.BytesEq(P.BytesEd25519(), P2.BytesEd25519()), "ed25519-bytes-canonical")
	vsym.Assert(lib.BytesEq(P.Bytes(), P2.Bytes()), "bytes-canonical")
	a, b := eddsa.NewPublicKeyFromPoint(P), eddsa.NewPublicKeyFromPoint(P2)
	vsym.Assert(a.Equal(b) && lib.BytesEq(a.ToEd25519(), b.ToEd25519()), "keys-equal")
	msg := vsym.Bytes("message", 3)
	c1, c2 := eddsa.ComputeChallenge(R, a, msg), eddsa.ComputeChallenge(R2, b, msg)
	vsym.Assert(lib.SEq(c1, c2), "challenge-independent-of-representation")
	s1, s2 := &eddsa.Signature{R: *R}, &eddsa.Signature{R: *R2}
	z := vsym.Scalar("z")
	s1.S.Set(z)
	s2.S.Set(z)
	vsym.Assert(s1.Equal(s2) && lib.BytesEq(s1.ToEd25519(), s2.ToEd25519()), "signatures-equal")
	// [8^-1][8]P is the prime-order representative: adding it to itself and to
	// the standard decoding agree
	X := vsym.Scalar("x")
	vsym.Assert(lib.BytesEq(lib.Base(X).BytesEd25519(), eddsa.NewPublicKeyFromPoint(lib.Base(X)).ToEd25519()), "ed25519-bytes")
	vsym.Cover("representation")
}

// CheckChallenge: the challenge depends on all of its inputs.
func CheckChallenge() {
	R, A := vsym.Element("R"), vsym.Element("A")
	msg := message("message")
	c := eddsa.ComputeChallenge(R, eddsa.NewPublicKeyFromPoint(A), msg)
	R2, A2, msg2 := R, A, msg
	switch vsym.Choose("what", 4) {
	case 0:
		R2 = vsym.Element("R2")
		vsym.Assume(!lib.EEq(R, R2))
	case 1:
		A2 = vsym.Element("A2")
		vsym.Assume(!lib.EEq(A, A2))
	case 2:
		msg2 = message("message2")
		vsym.Assume(!lib.BytesEq(msg, msg2))
	case 3:
		R2, A2 = A, R
		vsym.Assume(!lib.EEq(A, R))
	}
	c2 := eddsa.ComputeChallenge(R2, eddsa.NewPublicKeyFromPoint(A2), msg2)
	vsym.Assert(!lib.SEq(c, c2), "challenge-binds-inputs")
	c3 := eddsa.ComputeChallenge(R, eddsa.NewPublicKeyFromPoint(A), msg)
	vsym.Assert(lib.SEq(c, c3), "challenge-deterministic")
	vsym.Cover("challenge")
}

// CheckWire: a signature survives its encodings.
func CheckWire() {
	x := vsym.Scalar("key")
	pk := key(x)
	msg := vsym.Bytes("message", 3)
	s := make_(x, pk, msg)
	b, err := s.MarshalBinary()
	vsym.Assert(err == nil && len(b) == 64 && s.Size() == 64, "signature-marshals")
	var q eddsa.Signature
	vsym.Assert(q.UnmarshalBinary(b) == nil, "signature-unmarshals")
	vsym.Assert(q.Equal(s) && s.Equal(&q), "signature-survives")
	vsym.Assert(pk.Verify(msg, &q), "signature-verifies-after-wire")
	vsym.Assert(lib.BytesEq(q.ToEd25519(), s.ToEd25519()), "ed25519-form-survives")
	e := s.ToEd25519()
	vsym.Assert(len(e) == 64 && lib.BytesEq(e[:32], s.R.BytesEd25519()) && lib.BytesEq(e[32:], s.S.Bytes()), "ed25519-form")
	other := vsym.Scalar("z")
	q.S.Set(other)
	vsym.Assert(q.Equal(s) == lib.SEq(other, &s.S), "signature-equality")
	vsym.Cover("wire")
}

// CheckKept: encodings belong to the caller.
func CheckKept() {
	x, y := vsym.Scalar("key"), vsym.Scalar("key2")
	vsym.Assume(!lib.SZero(x) && !lib.SZero(lib.SSub(x, y)))
	pk, pk2 := key(x), key(y)
	msg := lib.Message("message", 3)
	s, s2 := make_(x, pk, msg), make_(y, pk2, msg)
	sig, k := s.ToEd25519(), pk.ToEd25519()
	keep, keepK := append([]byte{}, sig...), append([]byte{}, k...)
	sig2, k2 := s2.ToEd25519(), pk2.ToEd25519()
	vsym.Assert(lib.BytesEq(sig, keep) && lib.BytesEq(k, keepK), "earlier-encoding-kept")
	vsym.Assert(ed25519.Verify(k, msg, sig), "valid-ed25519")
	vsym.Assert(ed25519.Verify(k2, msg, sig2), "valid-ed25519")
	i := vsym.U8("at")
	for j := range sig2 {
		if j == int(i) {
			sig2[j] ^= 1
		}
	}
	for j := range k2 {
		k2[j] ^= 0xff
	}
	sig2 = append(sig2[:32], 1, 2, 3)
	vsym.Assert(lib.BytesEq(sig, keep) && lib.BytesEq(k, keepK), "earlier-encoding-kept")
	vsym.Assert(pk2.Verify(msg, s2), "signature-independent-of-encoding")
	vsym.Assert(ed25519.Verify(pk2.ToEd25519(), msg, s2.ToEd25519()), "valid-ed25519")
	vsym.Assert(lib.BytesEq(pk.ToEd25519(), keepK) && lib.BytesEq(s.ToEd25519(), keep), "encoding-repeatable")
	vsym.Assert(ed25519.Verify(k, msg, sig), "valid-ed25519")
	// the key is a copy
	A := lib.Base(x)
	pk3 := eddsa.NewPublicKeyFromPoint(A)
	A.Add(A, ristretto.NewGeneratorElement())
	vsym.Assert(pk3.Equal(pk) && lib.BytesEq(pk3.ToEd25519(), keepK) && pk3.Verify(msg, s), "key-independent-of-point")
	vsym.Cover("kept")
}
