// Package c09: wire encoding round trips.
package c09

import (
	"encoding"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "all four message types with arbitrary sender, addressee and contents; commitment degree 0..4 (quick) or 0..12, and 20 and the numbers up to 36 (thorough 70) that the code treats specially, and around 256, 2048 and 65536 coefficients, all but the last the identity; buffers to decode: arbitrary bytes of every length up to 171 (quick) or 235"

type marsh interface {
	encoding.BinaryMarshaler
	BytesAppend([]byte) ([]byte, error)
	Size() int
	Equal(interface{}) bool
}

type unmarsh interface {
	marsh
	encoding.BinaryUnmarshaler
}

func degrees() int {
	if vsym.Tier() > 0 {
		return 13
	}
	return 5
}

// round checks one value: encoding, size, append and decoding.
func round(m marsh, back unmarsh) []byte {
	b, err := m.MarshalBinary()
	vsym.Assert(err == nil, "valid-value-encodes")
	vsym.Assert(len(b) == m.Size(), "size-is-encoded-length")
	pre := vsym.Bytes("prefix", 3)
	pre2 := append(make([]byte, 0, 3+vsym.Choose("spare", 2)*200), pre...)
	a, err := m.BytesAppend(pre2)
	vsym.Assert(err == nil, "valid-value-appends")
	vsym.Assert(len(a) == 3+len(b) && lib.BytesEq(a[:3], pre) && lib.BytesEq(a[3:], b), "append-keeps-prefix-and-adds-encoding")
	vsym.Assert(back.UnmarshalBinary(b) == nil, "own-encoding-decodes")
	vsym.Assert(m.Equal(back) && back.Equal(m), "decoded-value-equal")
	vsym.Assert(back.Size() == len(b), "decoded-size")
	b2, err := back.MarshalBinary()
	vsym.Assert(err == nil && lib.BytesEq(b, b2), "re-encoding-identical")
	return b
}

func CheckMessages() {
	typ := vsym.Choose("type", 4)
	deg := 0
	if typ == 0 {
		deg = vsym.Choose("degree", degrees())
	}
	m := lib.AnyMessage(typ, deg)
	var back messages.Message
	b := round(m, &back)
	vsym.Assert(back.From == m.From && back.To == m.To && back.Type == m.Type, "header-survives")
	vsym.Assert(b[0] == byte(typ+1), "type-byte")
	vsym.Assert(b[1] == byte(m.From>>8) && b[2] == byte(m.From) && b[3] == byte(m.To>>8) && b[4] == byte(m.To), "header-bytes-big-endian")
	switch typ {
	case 0:
		vsym.Assert(back.KeyGen1 != nil && back.KeyGen2 == nil && back.Sign1 == nil && back.Sign2 == nil, "payload-kind")
		vsym.Assert(back.KeyGen1.Commitments.Degree() == party.Size(deg), "degree-survives")
		vsym.Assert(lib.SEq(&back.KeyGen1.Proof.S, &m.KeyGen1.Proof.S) && lib.SEq(&back.KeyGen1.Proof.R, &m.KeyGen1.Proof.R), "proof-survives")
		vsym.Assert(lib.EEq(back.KeyGen1.Commitments.Constant(), m.KeyGen1.Commitments.Constant()), "constant-survives")
	case 1:
		vsym.Assert(back.KeyGen1 == nil && back.KeyGen2 != nil && back.Sign1 == nil && back.Sign2 == nil, "payload-kind")
		vsym.Assert(lib.SEq(&back.KeyGen2.Share, &m.KeyGen2.Share), "share-survives")
	case 2:
		vsym.Assert(back.KeyGen1 == nil && back.KeyGen2 == nil && back.Sign1 != nil && back.Sign2 == nil, "payload-kind")
		vsym.Assert(lib.EEq(&back.Sign1.Di, &m.Sign1.Di) && lib.EEq(&back.Sign1.Ei, &m.Sign1.Ei), "commitments-survive")
	case 3:
		vsym.Assert(back.KeyGen1 == nil && back.KeyGen2 == nil && back.Sign1 == nil && back.Sign2 != nil, "payload-kind")
		vsym.Assert(lib.SEq(&back.Sign2.Zi, &m.Sign2.Zi), "signature-share-survives")
	}
	vsym.Cover("message-round-trip")
}

// Payloads, the header and the signature on their own.
func CheckParts() {
	switch vsym.Choose("part", 8) {
	case 0:
		m := lib.AnyMessage(0, vsym.Choose("degree", degrees()))
		var p messages.KeyGen1
		round(m.KeyGen1, &p)
		pr := p.Proof
		var q = *m.KeyGen1.Proof
		round(pr, &q)
		e := lib.ExponentOf([]*ristretto.Element{vsym.Element("x")})
		round(m.KeyGen1.Commitments, e)
	case 1:
		var p messages.KeyGen2
		round(lib.AnyMessage(1, 0).KeyGen2, &p)
	case 2:
		var p messages.Sign1
		round(lib.AnyMessage(2, 0).Sign1, &p)
	case 3:
		var p messages.Sign2
		round(lib.AnyMessage(3, 0).Sign2, &p)
	case 4:
		m := lib.AnyMessage(vsym.Choose("type", 4), 0)
		var h messages.Header
		round(&m.Header, &h)
	case 5:
		s := eddsa.Signature{R: *vsym.Element("R"), S: *vsym.Scalar("S")}
		var s2 eddsa.Signature
		b := round(&s, &s2)
		vsym.Assert(lib.BytesEq(b[:32], s.R.Bytes()) && lib.BytesEq(b[32:], s.S.Bytes()), "signature-layout")
	case 6:
		// a decoder never depends on what the receiver held before
		typ := vsym.Choose("type", 4)
		m := lib.AnyMessage(typ, 1)
		b, err := m.MarshalBinary()
		vsym.Assert(err == nil, "valid-value-encodes")
		typ2 := vsym.Choose("type2", 4)
		m2 := lib.AnyMessage(typ2, 2)
		vsym.Assert(m2.UnmarshalBinary(b) == nil, "decodes-into-used-value")
		vsym.Assert(m2.Equal(m), "decoded-into-used-value-equal")
		b2, err := m2.MarshalBinary()
		vsym.Assert(err == nil && lib.BytesEq(b, b2), "decoded-into-used-value-same-bytes")
	case 7:
		id := party.ID(vsym.U16("id"))
		b := id.Bytes()
		id2, err := party.FromBytes(b)
		vsym.Assert(err == nil && id2 == id && len(b) == party.IDByteSize, "id-round-trip")
		vsym.Assert(b[0] == byte(id>>8) && b[1] == byte(id), "id-big-endian")
	}
	vsym.Cover("part-round-trip")
}

// Messages that must not be encoded: inconsistent header, missing payload.
func CheckInvalidNotEncoded() {
	var m messages.Message
	m.Type = messages.MessageType(vsym.U8("type"))
	m.From = party.ID(vsym.U16("from"))
	m.To = party.ID(vsym.U16("to"))
	has := vsym.Choose("payload", 5)
	switch has {
	case 1:
		m.KeyGen1 = lib.AnyMessage(0, 1).KeyGen1
	case 2:
		m.KeyGen2 = lib.AnyMessage(1, 0).KeyGen2
	case 3:
		m.Sign1 = lib.AnyMessage(2, 0).Sign1
	case 4:
		m.Sign2 = lib.AnyMessage(3, 0).Sign2
	}
	b, err := m.MarshalBinary()
	good := m.Type >= 1 && m.Type <= 4 && int(m.Type) == has && m.From != 0 && (m.Type == messages.MessageTypeKeyGen2) == (m.To != 0)
	if good {
		vsym.Assert(err == nil, "consistent-message-encodes")
		var back messages.Message
		vsym.Assert(back.UnmarshalBinary(b) == nil && back.Equal(&m), "consistent-message-round-trips")
		vsym.Cover("consistent")
	} else {
		vsym.Assert(err != nil, "inconsistent-message-not-encoded")
		vsym.Cover("inconsistent")
	}
}

// Distinct values are not Equal and have different encodings.
func CheckInjective() {
	typ := vsym.Choose("type", 4)
	m := lib.AnyMessage(typ, 1)
	n := lib.AnyMessage(typ, 1+vsym.Choose("deg2", 1+b2i(typ == 0)))
	b1, err1 := m.MarshalBinary()
	b2, err2 := n.MarshalBinary()
	vsym.Assert(err1 == nil && err2 == nil, "valid-value-encodes")
	same := m.From == n.From && m.To == n.To
	switch typ {
	case 0:
		same = same && lib.SEq(&m.KeyGen1.Proof.S, &n.KeyGen1.Proof.S) && lib.SEq(&m.KeyGen1.Proof.R, &n.KeyGen1.Proof.R) &&
			m.KeyGen1.Commitments.Degree() == n.KeyGen1.Commitments.Degree() && m.KeyGen1.Commitments.Equal(n.KeyGen1.Commitments)
	case 1:
		same = same && lib.SEq(&m.KeyGen2.Share, &n.KeyGen2.Share)
	case 2:
		same = same && lib.EEq(&m.Sign1.Di, &n.Sign1.Di) && lib.EEq(&m.Sign1.Ei, &n.Sign1.Ei)
	case 3:
		same = same && lib.SEq(&m.Sign2.Zi, &n.Sign2.Zi)
	}
	eq := m.Equal(n)
	be := lib.BytesEq(b1, b2)
	vsym.Assert(be == same, "encoding-determines-message")
	vsym.Assert(eq == same, "equal-is-value-equality")
	if same {
		vsym.Cover("same")
	} else {
		vsym.Cover("different")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Any buffer that decodes re-encodes to itself: one encoding per message.
func CheckCanonical() {
	max := 172
	if vsym.Tier() > 0 {
		max = 236
	}
	n := vsym.Choose("len", max)
	in := vsym.Bytes("buf", n)
	cp := append([]byte{}, in...)
	var m messages.Message
	err := m.UnmarshalBinary(in)
	vsym.Assert(lib.BytesEq(in, cp), "decoding-does-not-modify-input")
	if err != nil {
		vsym.Cover("rejected")
		return
	}
	b, err := m.MarshalBinary()
	vsym.Assert(err == nil, "decoded-message-encodes")
	vsym.Assert(lib.BytesEq(b, in), "decoded-buffer-is-canonical")
	vsym.Assert(m.Size() == n, "decoded-message-size")
	switch m.Type {
	case messages.MessageTypeKeyGen1:
		vsym.Cover("canonical-keygen1")
	case messages.MessageTypeKeyGen2:
		vsym.Cover("canonical-keygen2")
	case messages.MessageTypeSign1:
		vsym.Cover("canonical-sign1")
	case messages.MessageTypeSign2:
		vsym.Cover("canonical-sign2")
	}
}

// CheckLong: first-round messages with more commitments.
func CheckLong() {
	m := lib.AnyMessage(0, vsym.Count("degree", lib.Limit(), 5, 20))
	var back messages.Message
	round(m, &back)
	vsym.Cover("long")
}

// large are numbers of coefficients around the limits of 16-bit numbers.
var large = []int{256, 257, 2047, 2048, 2049, 4096, 65535, 65536}

// CheckLarge: commitments of very high degree.
func CheckLarge() {
	n := large[vsym.Choose("n", len(large))]
	m := lib.AnyMessage(0, 0)
	e := vsym.Element("last")
	pre, err := m.MarshalBinary()
	vsym.Assert(err == nil, "valid-value-encodes")
	in := make([]byte, 5+64+2+32*n)
	copy(in, pre[:5+64])
	in[5+64], in[5+65] = byte((n-1)>>8), byte(n-1)
	copy(in[len(in)-32:], e.Bytes())
	var back messages.Message
	vsym.Assert(back.UnmarshalBinary(in) == nil, "valid-encoding-decodes")
	c := back.KeyGen1.Commitments
	vsym.Assert(c.Degree() == party.Size(n-1), "degree-survives")
	vsym.Assert(c.Size() == 2+32*n && back.KeyGen1.Size() == 64+2+32*n && back.Size() == len(in), "size-is-encoded-length")
	out, err := back.MarshalBinary()
	vsym.Assert(err == nil && lib.BytesEq(out, in), "re-encoding-identical")
	in[5+65]++
	vsym.Assert(back.UnmarshalBinary(in) != nil, "wrong-degree-refused")
	vsym.Cover("large")
}

// CheckKept: encodings belong to the caller, and decoded messages do not depend
// on the buffer they came from.
func CheckKept() {
	m, o := lib.AnyMessage(vsym.Choose("type", 4), 1), lib.AnyMessage(vsym.Choose("type2", 4), 1)
	same := lib.AnyMessage(0, 0)
	keep := func(m *messages.Message) ([]byte, []byte) {
		b, err := m.MarshalBinary()
		vsym.Assert(err == nil, "valid-value-encodes")
		return b, append([]byte{}, b...)
	}
	a, ka := keep(m)
	c, kc := keep(o)
	vsym.Assert(lib.BytesEq(a, ka), "earlier-encoding-kept")
	// one buffer for all that is received
	buf := make([]byte, len(a)+len(c))
	n := copy(buf, a)
	var x, y messages.Message
	vsym.Assert(x.UnmarshalBinary(buf[:n]) == nil, "own-encoding-decodes")
	n = copy(buf, c)
	vsym.Assert(y.UnmarshalBinary(buf[:n]) == nil, "own-encoding-decodes")
	for i := range buf {
		buf[i] = 0xff
	}
	for i := range c {
		c[i] = 0xff
	}
	vsym.Assert(x.Equal(m) && y.Equal(o), "decoded-independent-of-buffer")
	bx, err := x.MarshalBinary()
	vsym.Assert(err == nil && lib.BytesEq(bx, ka) && lib.BytesEq(a, ka), "earlier-encoding-kept")
	by, err := y.MarshalBinary()
	vsym.Assert(err == nil && lib.BytesEq(by, kc) && lib.BytesEq(bx, ka), "earlier-encoding-kept")
	// two messages decoded from the same bytes, one of which changes
	var z messages.Message
	vsym.Assert(z.UnmarshalBinary(a) == nil && z.Equal(&x), "decodes-again")
	z.From++
	switch z.Type {
	case messages.MessageTypeKeyGen1:
		z.KeyGen1.Proof.S.Add(&z.KeyGen1.Proof.S, lib.One())
		z.KeyGen1.Commitments.Reset()
	case messages.MessageTypeKeyGen2:
		z.KeyGen2.Share.Add(&z.KeyGen2.Share, lib.One())
	case messages.MessageTypeSign1:
		z.Sign1.Di.Add(&z.Sign1.Di, ristretto.NewGeneratorElement())
	case messages.MessageTypeSign2:
		z.Sign2.Zi.Add(&z.Sign2.Zi, lib.One())
	}
	vsym.Assert(x.Equal(m) && lib.BytesEq(a, ka), "decoded-messages-independent")
	// appended to a buffer with room
	room := make([]byte, 1, 1000)
	r1, err := m.BytesAppend(room)
	vsym.Assert(err == nil, "valid-value-appends")
	k1 := append([]byte{}, r1...)
	r2, err := same.BytesAppend(make([]byte, 1, 1000))
	vsym.Assert(err == nil && len(r2) > 1, "valid-value-appends")
	vsym.Assert(lib.BytesEq(r1, k1), "earlier-encoding-kept")
	vsym.Cover("kept")
}

// CheckPartsKept: the same for the parts.
func CheckPartsKept() {
	part := func(k int) unmarsh {
		switch k {
		case 0:
			return lib.AnyMessage(0, 1).KeyGen1
		case 1:
			return lib.AnyMessage(0, 0).KeyGen1.Proof
		case 2:
			return lib.AnyMessage(0, 1).KeyGen1.Commitments
		case 3:
			return lib.AnyMessage(1, 0).KeyGen2
		case 4:
			return lib.AnyMessage(2, 0).Sign1
		case 5:
			return lib.AnyMessage(3, 0).Sign2
		case 6:
			h := lib.AnyMessage(vsym.Choose("type", 4), 0).Header
			return &h
		default:
			return &eddsa.Signature{R: *vsym.Element("R"), S: *vsym.Scalar("S")}
		}
	}
	k := vsym.Choose("part", 8)
	p, q, r := part(k), part(k), part(k)
	a, err := p.MarshalBinary()
	vsym.Assert(err == nil, "valid-value-encodes")
	ka := append([]byte{}, a...)
	b, err := q.MarshalBinary()
	vsym.Assert(err == nil && lib.BytesEq(a, ka), "earlier-encoding-kept")
	for i := range b {
		b[i] = 0xff
	}
	vsym.Assert(lib.BytesEq(a, ka), "earlier-encoding-kept")
	vsym.Assert(r.UnmarshalBinary(a) == nil && r.Equal(p), "own-encoding-decodes")
	for i := range a {
		a[i] = 0xff
	}
	vsym.Assert(r.Equal(p), "decoded-independent-of-buffer")
	c, err := r.MarshalBinary()
	vsym.Assert(err == nil && lib.BytesEq(c, ka), "re-encoding-identical")
	vsym.Cover("kept")
}
