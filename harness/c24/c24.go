// Package c24: nothing secret is made without randomness.
package c24

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/scalar"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const Bounds = "one party of 21, 258 and the numbers up to 140 that the code treats specially: every read (above 36 parties: the first four, one in the middle and the last ones); otherwise each of the first 12 reads from the random source fails, or yields only 0, 1, 16 or 31 arbitrary bytes; key generation of 2..4 parties with every threshold (one party's draws, the others' as well), signing by 2..3 parties, dealing for 1..4 parties with every threshold, polynomials of degree 0..4, proofs, single scalars; the same operation once more after the failure"

const Assumptions = "a failing crypto/rand.Read ends the process (Go 1.24 and later)"

// fault makes one read fail. The result is the scalar that comes out when the
// missing bytes are taken to be zero.
func fault() *ristretto.Scalar {
	k := int(vsym.U8("draw"))
	vsym.Assume(k >= 1 && k <= 12)
	return faultAt(k)
}

func faultAt(k int) *ristretto.Scalar {
	if vsym.Bool("fail") {
		vsym.FailRand(k)
		return ristretto.NewScalar()
	}
	prefix := vsym.Bytes("prefix", []int{0, 1, 16, 31}[vsym.Choose("short", 4)])
	vsym.ShortRand(k, prefix)
	bad := ristretto.NewScalar()
	b := make([]byte, 64)
	copy(b, prefix)
	_, _ = bad.SetUniformBytes(b)
	short = true
	return bad
}

var (
	short  bool
	failed bool
)

// try runs an operation under a fault. It reports whether it went through;
// after a failure it may not.
func try(f func() bool) bool {
	ok := false
	panicked := vsym.Panics(func() { ok = f() })
	if panicked {
		ok = false
	}
	if vsym.RandFailed() && !short {
		vsym.Assert(!ok, "failure-not-silent")
		vsym.Cover("failure")
	}
	if !vsym.RandFailed() && !failed {
		vsym.Assert(ok, "works-with-randomness")
		vsym.Cover("no-failure")
	}
	if ok && short && vsym.RandFailed() {
		vsym.Cover("short-read-completed")
	}
	if !ok {
		failed = true
	}
	return ok
}

// fresh asserts that a secret (by its public value) is neither zero nor the
// scalar with the missing bytes taken to be zero.
func fresh(e *ristretto.Element, bad *ristretto.Scalar) {
	vsym.Assert(!lib.EZero(e), "no-default-value")
	vsym.Assert(!lib.EEq(e, lib.Base(bad)), "no-default-bytes")
}

func start(st *state.State) (ms []*messages.Message, ok bool) {
	ms = st.ProcessAll()
	return ms, len(ms) != 0
}

// goOn delivers what the others sent and processes it. It also reports whether
// the party had made its own first step.
func goOn(st *state.State, id party.ID, sent []*messages.Message) (out []*messages.Message, went bool) {
	for _, m := range sent {
		if m.From == id {
			went = true
			continue
		}
		_ = st.HandleMessage(lib.Wire(m))
	}
	vsym.Panics(func() { out = st.ProcessAll() })
	return
}

func keygen1(m *messages.Message, t party.Size, bad *ristretto.Scalar) []interface{} {
	var vals []interface{}
	cs := lib.Coefficients(m.KeyGen1.Commitments)
	vsym.Assert(len(cs) == int(t)+1, "commitment-degree-is-threshold")
	for _, c := range cs {
		fresh(c, bad)
		vals = append(vals, c)
	}
	p := m.KeyGen1.Proof
	n := lib.ESub(lib.Base(&p.R), lib.EMul(&p.S, cs[0]))
	fresh(n, bad)
	return append(vals, n)
}

// CheckMany: one party draws many coefficients.
func CheckMany() {
	vsym.Deep()
	n := vsym.Count("n", lib.LimitOne(), 21, 258)
	ids := lib.Many(n)
	t := party.Size(n - 1)
	k := int(vsym.U16("draw"))
	vsym.Assume(k >= 1 && k <= n+2)
	vsym.Assume(n < 37 || k <= 4 || k == n/2 || k >= n-2)
	bad := faultAt(k)
	x := lib.NewKeygen(ids, t, 0)[n/2]
	var ms []*messages.Message
	if try(func() (ok bool) { ms, ok = start(x.St); return }) {
		vsym.Assert(len(ms) == 1, "one-message")
		vsym.Independent("all-drawn-values-fresh", keygen1(ms[0], t, bad)...)
	} else if x.St.IsFinished() {
		vsym.Assert(x.St.Err() != nil && x.Out.SecretKey == nil && x.Out.Public == nil, "failure-reported")
	}
	vsym.Cover("many")
}

// CheckKeygen: the first step of key generation.
func CheckKeygen() {
	n := 2 + vsym.Choose("n", 3)
	ids := party.IDSlice{1, 255, 256, 65535}[:n]
	t := party.Size(1 + vsym.Choose("t", n-1))
	bad := fault()
	k := lib.NewKeygen(ids, t, 0)
	var vals []interface{}
	var sent []*messages.Message
	for _, x := range k {
		for try1 := 0; ; try1++ {
			var ms []*messages.Message
			ok := try(func() (ok bool) { ms, ok = start(x.St); return })
			if ok {
				vsym.Assert(len(ms) == 1, "one-message")
				vals = append(vals, keygen1(ms[0], t, bad)...)
				sent = append(sent, ms[0])
				break
			}
			if try1 > 0 {
				break
			}
			if x.St.IsFinished() {
				vsym.Assert(x.St.Err() != nil && x.Out.SecretKey == nil && x.Out.Public == nil, "failure-reported")
				return
			}
			// once more, with randomness
			vsym.FailRand(0)
		}
	}
	vsym.Independent("all-drawn-values-fresh", vals...)
	for _, x := range k {
		m2, went := goOn(x.St, x.ID, sent)
		if !went {
			vsym.Assert(len(m2) == 0 && x.Out.SecretKey == nil && x.Out.Public == nil, "nothing-follows-a-failure")
			vsym.Cover("stopped")
		} else if len(sent) == n {
			vsym.Assert(len(m2) == n-1, "next-step-follows")
		}
	}
	vsym.Cover("keygen")
}

// CheckSign: the first step of signing.
func CheckSign() {
	n := 2 + vsym.Choose("n", 2)
	ids := party.IDSlice{1, 256, 65535}[:n]
	_, secrets := helpers.GenerateSecrets(ids, party.Size(n-1))
	pub := helpers.GeneratePublic(party.Size(n-1), secrets)
	bad := fault()
	var vals []interface{}
	var sent []*messages.Message
	sg := lib.NewSign(ids, secrets, pub, []byte("message"), 0)
	for _, x := range sg {
		for try1 := 0; ; try1++ {
			var ms []*messages.Message
			ok := try(func() (ok bool) { ms, ok = start(x.St); return })
			if ok {
				vsym.Assert(len(ms) == 1, "one-message")
				d, e := &ms[0].Sign1.Di, &ms[0].Sign1.Ei
				fresh(d, bad)
				fresh(e, bad)
				vals = append(vals, d, e)
				sent = append(sent, ms[0])
				break
			}
			if try1 > 0 {
				break
			}
			if x.St.IsFinished() {
				vsym.Assert(x.St.Err() != nil && x.Out.Signature == nil, "failure-reported")
				return
			}
			vsym.FailRand(0)
		}
	}
	vsym.Independent("all-drawn-values-fresh", vals...)
	for _, x := range sg {
		m2, went := goOn(x.St, x.ID, sent)
		if !went {
			vsym.Assert(len(m2) == 0 && x.Out.Signature == nil, "nothing-follows-a-failure")
			vsym.Cover("stopped")
		} else if len(sent) == n {
			vsym.Assert(len(m2) == 1, "next-step-follows")
		}
	}
	vsym.Cover("sign")
}

// CheckDeal: the trusted dealer.
func CheckDeal() {
	n := 1 + vsym.Choose("n", 4)
	ids := party.IDSlice{1, 255, 256, 65535}[:n]
	t := vsym.Choose("t", n)
	bad := fault()
	for {
		var secret *ristretto.Scalar
		var vals []interface{}
		if try(func() bool {
			s, shares := helpers.GenerateSecrets(ids, party.Size(t))
			secret = s
			vals = append(vals, secret)
			for _, id := range ids[:t] {
				vals = append(vals, &shares[id].Secret)
			}
			return true
		}) {
			fresh(lib.Base(secret), bad)
			vsym.Independent("all-drawn-values-fresh", vals...)
			break
		}
		vsym.FailRand(0)
	}
	vsym.Cover("deal")
}

// CheckPolynomial: polynomials with a given constant.
func CheckPolynomial() {
	d := vsym.Choose("degree", 5)
	c := scalar.NewScalarRandom()
	bad := fault()
	for {
		var p *polynomial.Polynomial
		if try(func() bool { p = polynomial.NewPolynomial(party.Size(d), c); return true }) {
			vals := []interface{}{c}
			e := polynomial.NewPolynomialExponent(p)
			for i, x := range lib.Coefficients(e) {
				if i > 0 {
					fresh(x, bad)
					vals = append(vals, x)
				}
			}
			vsym.Assert(len(vals) == d+1, "polynomial-degree")
			vsym.Independent("all-drawn-values-fresh", vals...)
			break
		}
		vsym.FailRand(0)
	}
	vsym.Cover("polynomial")
}

// CheckProof: proofs of knowledge and single scalars.
func CheckProof() {
	secret := scalar.NewScalarRandom()
	public := lib.Base(secret)
	id := party.ID(vsym.U16("id"))
	bad := fault()
	which := vsym.Choose("what", 3)
	for {
		var e *ristretto.Element
		if try(func() bool {
			switch which {
			case 0:
				p := zk.NewSchnorrProof(id, public, make([]byte, 32), secret)
				vsym.Assert(p.Verify(id, public, make([]byte, 32)), "proof-verifies")
				e = lib.ESub(lib.Base(&p.R), lib.EMul(&p.S, public))
			case 1:
				e = lib.Base(scalar.NewScalarRandom())
			case 2:
				s := vsym.Scalar("old")
				r := scalar.SetScalarRandom(s)
				vsym.Assert(r == s, "sets-its-argument")
				e = lib.Base(s)
			}
			return true
		}) {
			fresh(e, bad)
			vsym.Independent("all-drawn-values-fresh", secret, e)
			break
		}
		vsym.FailRand(0)
	}
	vsym.Cover("proof")
}
