// Package c04: the proof of knowledge sent in key generation.
package c04

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "one proof at a time (two for replay and nonce reuse); prover ID, context bytes, secret, nonce, statement and every deviation of statement and proof are symbolic; a changed proof is verified on its own and between two verifications of the honest one"

const Assumptions = "a proof whose scalars were fixed before the challenge was hashed verifies only if the challenge does not enter the check"

// CheckComplete: an honest proof verifies, before and after the wire.
func CheckComplete() {
	id := party.ID(vsym.U16("id"))
	ctx := vsym.Bytes("ctx", 32)
	x := vsym.Scalar("secret")
	P := lib.Base(x)
	pr := zk.NewSchnorrProof(id, P, ctx, x)
	vsym.Assert(pr.Verify(id, P, ctx), "honest-proof-verifies")
	b, err := pr.MarshalBinary()
	vsym.Assert(err == nil && len(b) == 64, "proof-marshals")
	var q zk.Schnorr
	vsym.Assert(q.UnmarshalBinary(b) == nil, "proof-unmarshals")
	vsym.Assert(q.Equal(pr), "proof-survives-the-wire")
	vsym.Assert(q.Verify(id, P, ctx), "honest-proof-verifies-after-wire")
	vsym.Assert(lib.EEq(P, lib.Base(x)), "statement-unchanged")
	vsym.Cover("complete")
}

// CheckForge: proofs made without the secret, all values chosen before the
// challenge is known, are rejected.
func CheckForge() {
	id := party.ID(vsym.U16("id"))
	ctx := vsym.Bytes("ctx", 32)
	P := vsym.Element("P")
	S, R := vsym.Scalar("S"), vsym.Scalar("R")
	switch vsym.Choose("shape", 4) {
	case 1:
		S = ristretto.NewScalar()
	case 2:
		R = ristretto.NewScalar()
	case 3:
		S, R = ristretto.NewScalar(), ristretto.NewScalar()
	}
	vsym.Assert(!lib.Schnorr(S, R).Verify(id, P, ctx), "proof-without-secret-rejected")
	vsym.Cover("forge")
}

// CheckMaul: a changed proof, statement, prover or context is rejected.
func CheckMaul() {
	id := party.ID(vsym.U16("id"))
	ctx := vsym.Bytes("ctx", 32)
	x := vsym.Scalar("secret")
	P := lib.Base(x)
	pr := zk.NewSchnorrProof(id, P, ctx, x)
	S, R := lib.SAdd(&pr.S, ristretto.NewScalar()), lib.SAdd(&pr.R, ristretto.NewScalar())
	id2, ctx2 := id, ctx
	d := vsym.Scalar("delta")
	vsym.Assume(!lib.SZero(d))
	P2 := P
	switch vsym.Choose("what", 8) {
	case 0:
		S = lib.SAdd(S, d)
	case 1:
		R = lib.SAdd(R, d)
	case 2:
		S = lib.SAdd(S, d)
		R = lib.SAdd(R, vsym.Scalar("delta2"))
	case 3:
		P2 = lib.EAdd(P, lib.Base(d))
	case 4:
		// statement shifted by a known amount, response shifted accordingly
		P2 = lib.EAdd(P, lib.Base(d))
		R = lib.SAdd(R, lib.SMul(d, S))
	case 5:
		id2 = party.ID(vsym.U16("other id"))
		vsym.Assume(id2 != id)
	case 6:
		ctx2 = vsym.Bytes("other ctx", 32)
		vsym.Assume(!lib.BytesEq(ctx, ctx2))
	case 7:
		// commitment of the nonce shifted by a known amount
		R = lib.SAdd(R, d)
		P2 = lib.EAdd(P, lib.EMul(lib.SInv(S), lib.Base(d)))
	}
	seen := vsym.Choose("seen", 2) == 1
	if seen {
		vsym.Assert(pr.Verify(id, P, ctx), "honest-proof-verifies-first")
	}
	bad := lib.Schnorr(S, R)
	vsym.Assert(!bad.Verify(id2, P2, ctx2), "changed-proof-rejected")
	if seen {
		vsym.Assert(!bad.Verify(id2, P2, ctx2), "changed-proof-rejected-again")
		vsym.Assert(pr.Verify(id, P, ctx), "honest-proof-verifies-again")
	}
	vsym.Cover("maul")
}

// CheckOther: a proof for one secret says nothing about another statement.
func CheckOther() {
	id := party.ID(vsym.U16("id"))
	ctx := vsym.Bytes("ctx", 32)
	x := vsym.Scalar("secret")
	pr := zk.NewSchnorrProof(id, lib.Base(x), ctx, x)
	Q := vsym.Element("Q")
	ok := pr.Verify(id, Q, ctx)
	vsym.Assert(!ok || lib.EEq(Q, lib.Base(x)), "proof-bound-to-statement")
	if ok {
		vsym.Cover("same statement")
	} else {
		vsym.Cover("other statement")
	}
}

// CheckNonce: the nonce is fresh and hides the secret.
func CheckNonce() {
	id := party.ID(vsym.U16("id"))
	ctx := make([]byte, 32)
	x, y := vsym.Scalar("secret"), vsym.Scalar("secret2")
	p1 := zk.NewSchnorrProof(id, lib.Base(x), ctx, x)
	p2 := zk.NewSchnorrProof(id, lib.Base(x), ctx, x)
	p3 := zk.NewSchnorrProof(id, lib.Base(y), ctx, y)
	k1 := lib.SSub(&p1.R, lib.SMul(&p1.S, x))
	k2 := lib.SSub(&p2.R, lib.SMul(&p2.S, x))
	k3 := lib.SSub(&p3.R, lib.SMul(&p3.S, y))
	vsym.Independent("proof-nonces-independent", k1, k2, k3)
	vsym.Independent("responses-hide-the-secret", &p1.R, &p2.R, &p3.R)
	vsym.Cover("nonce")
}
