// Package c17: stored key material.
package c17

import (
	"encoding/json"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "key material of 1..4 (quick) or 1..5 parties (fixed IDs: also 10 and the numbers up to 36, thorough 70, that the code treats specially and 258) with arbitrary IDs, shares and thresholds; secret share buffers of 0..36 arbitrary bytes; JSON documents with every field missing, null, of another type, or an arbitrary integer, byte string or element, and up to 2 (quick, with one such field at a time) or 3 shares"

const Assumptions = "the JSON grammar itself (encoding/json) is modelled; scalars form the prime field of the group order and elements the group over it"

func max() int { return 4 + vsym.Tier() }

// material is arbitrary consistent public key material.
func material(n int) (*eddsa.Public, party.IDSlice, []*ristretto.Element) {
	ids := lib.SymIDs(n)
	t := party.Size(vsym.U16("t"))
	vsym.Assume(int(t) < n)
	m := map[party.ID]*ristretto.Element{}
	var es []*ristretto.Element
	for _, id := range ids {
		e := vsym.Element("share")
		es = append(es, lib.CopyE(e))
		m[id] = e
	}
	p, err := eddsa.NewPublic(m, t)
	vsym.Assert(err == nil, "material-accepted")
	return p, ids, es
}

func group(ids party.IDSlice, es []*ristretto.Element) *ristretto.Element {
	xs := lib.IDScalars(ids)
	r := ristretto.NewIdentityElement()
	for j := range es {
		r = lib.EAdd(r, lib.EMul(lib.RefLagrange(xs, j, ristretto.NewScalar()), es[j]))
	}
	return r
}

// is checks public key material.
func is(p *eddsa.Public, t party.Size, ids party.IDSlice, es []*ristretto.Element, label string) {
	ok := p.Threshold == t && lib.SameIDs(p.PartyIDs, ids) && len(p.Shares) == len(ids)
	for j, id := range ids {
		ok = ok && p.Shares[id] != nil && lib.EEq(p.Shares[id], es[j])
	}
	vsym.Assert(ok, label)
	vsym.Assert(p.GroupKey != nil && p.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(group(ids, es))), label)
}

// CheckPublicJSON: public material survives.
func CheckPublicJSON() {
	p, ids, es := material(1 + vsym.Choose("n", max()))
	t := p.Threshold
	vsym.MapOrder(vsym.Choose("order", 2))
	var b []byte
	var err error
	switch vsym.Choose("encoder", 3) {
	case 0:
		b, err = json.Marshal(p)
	case 1:
		b, err = p.MarshalJSON()
	case 2:
		b, err = json.MarshalIndent(p, " ", "\t")
	}
	vsym.Assert(err == nil, "public-encodes")
	is(p, t, ids, es, "encoding-changes-nothing")
	q := new(eddsa.Public)
	if vsym.Choose("target", 2) == 1 { // one in use
		q, _, _ = material(2)
	}
	if vsym.Choose("decoder", 2) == 0 {
		err = json.Unmarshal(b, q)
	} else {
		err = q.UnmarshalJSON(b)
	}
	vsym.Assert(err == nil, "public-decodes")
	is(q, t, ids, es, "public-survives")
	vsym.Assert(q.Equal(p) && p.Equal(q), "public-equal")
	for _, id := range ids {
		q.Shares[id].Add(q.Shares[id], ristretto.NewGeneratorElement())
	}
	is(p, t, ids, es, "loaded-is-independent")
	vsym.Cover("public-loaded")
}

// CheckSecret: a secret share survives.
func CheckSecret() {
	id := party.ID(vsym.U16("id"))
	vsym.Assume(id != 0)
	s := vsym.Scalar("secret")
	sk := eddsa.NewSecretShare(id, s)
	vsym.Assert(sk.ID == id && lib.SEq(&sk.Secret, s) && lib.EEq(&sk.Public, lib.Base(s)), "secret-made")
	r := new(eddsa.SecretShare)
	if vsym.Choose("target", 2) == 1 {
		r = eddsa.NewSecretShare(party.ID(vsym.U16("id")), vsym.Scalar("secret"))
	}
	var b []byte
	var err error
	switch vsym.Choose("encoding", 3) {
	case 0:
		b, err = json.Marshal(sk)
		vsym.Assert(err == nil, "secret-encodes")
		err = json.Unmarshal(b, r)
	case 1:
		b, err = sk.MarshalJSON()
		vsym.Assert(err == nil, "secret-encodes")
		err = r.UnmarshalJSON(b)
	case 2:
		b, err = sk.MarshalBinary()
		vsym.Assert(err == nil, "secret-encodes")
		err = r.UnmarshalBinary(b)
	}
	vsym.Assert(err == nil, "secret-decodes")
	vsym.Assert(sk.ID == id && lib.SEq(&sk.Secret, s) && lib.EEq(&sk.Public, lib.Base(s)), "encoding-changes-nothing")
	vsym.Assert(r.ID == id && lib.SEq(&r.Secret, s), "secret-survives")
	vsym.Assert(lib.EEq(&r.Public, lib.Base(s)), "loaded-secret-usable")
	vsym.Assert(r.Equal(sk) && sk.Equal(r), "secret-equal")
	r.Secret.Add(&r.Secret, lib.One())
	vsym.Assert(lib.SEq(&sk.Secret, s), "loaded-is-independent")
	vsym.Cover("secret-loaded")
}

// CheckEqual: comparison tells different material apart.
func CheckEqual() {
	a := eddsa.NewSecretShare(party.ID(vsym.U16("a")), vsym.Scalar("a"))
	b := eddsa.NewSecretShare(party.ID(vsym.U16("b")), vsym.Scalar("b"))
	same := a.ID == b.ID && lib.SEq(&a.Secret, &b.Secret)
	vsym.Assert(a.Equal(b) == same, "secret-comparison")
	if same {
		vsym.Cover("same-secret")
	}
	p, ids, es := material(1 + vsym.Choose("n", 3))
	q, jds, fs := material(1 + vsym.Choose("n", 3))
	same = p.Threshold == q.Threshold && lib.SameIDs(ids, jds)
	if same {
		for i := range es {
			same = same && lib.EEq(es[i], fs[i])
		}
	}
	vsym.Assert(p.Equal(q) == same, "public-comparison")
	if same {
		vsym.Cover("same-public")
	} else {
		vsym.Cover("other-public")
	}
}

// CheckShared: material which has parts in common with other material.
func CheckShared() {
	n := 2 + vsym.Choose("n", 2)
	p, ids, es := material(n)
	q := *p
	d := vsym.Scalar("delta")
	same := lib.SZero(d)
	switch vsym.Choose("what", 4) {
	case 0: // shares refreshed: moved along a polynomial which is 0 at 0
		q.Shares = map[party.ID]*ristretto.Element{}
		for i, id := range ids {
			q.Shares[id] = lib.EAdd(es[i], lib.Base(lib.SMul(d, id.Scalar())))
		}
	case 1: // one share differs
		q.Shares = map[party.ID]*ristretto.Element{}
		k := vsym.Choose("which", n)
		for i, id := range ids {
			q.Shares[id] = es[i]
			if i == k {
				q.Shares[id] = lib.EAdd(es[i], lib.Base(d))
			}
		}
	case 2:
		q.GroupKey = eddsa.NewPublicKeyFromPoint(lib.EAdd(group(ids, es), lib.Base(d)))
	case 3:
		q.Threshold = party.Size(vsym.U16("t"))
		same = q.Threshold == p.Threshold
	}
	vsym.Assert(p.Equal(&q) == same && q.Equal(p) == same, "comparison-of-shared-material")
	vsym.Assert(p.Equal(p), "equal-to-itself")
	if same {
		vsym.Cover("same")
	} else {
		vsym.Cover("differs")
	}
}

// CheckSecretBytes: arbitrary bytes.
func CheckSecretBytes() {
	b := vsym.Bytes("buf", vsym.Choose("len", 37))
	var sk eddsa.SecretShare
	err := sk.UnmarshalBinary(b)
	if len(b) != 34 {
		vsym.Assert(err != nil, "secret-of-wrong-length-refused")
		vsym.Cover("wrong-length")
		return
	}
	var s ristretto.Scalar
	_, serr := s.SetCanonicalBytes(b[2:])
	id := party.ID(b[0])<<8 | party.ID(b[1])
	if id == 0 {
		vsym.Assert(err != nil, "secret-of-invalid-id-refused")
		vsym.Cover("invalid-id")
		return
	}
	vsym.Assert((err == nil) == (serr == nil), "malformed-secret-refused")
	if err == nil {
		vsym.Assert(sk.ID == id && lib.SEq(&sk.Secret, &s) && lib.EEq(&sk.Public, lib.Base(&s)), "secret-loaded-exactly")
		vsym.Cover("secret")
	} else {
		vsym.Cover("malformed")
	}
}

var junk = []string{"null", "true", "{}", "[]", `""`, `"x"`, "1.5", "1e3", "99999999999999999999", `"AAAA"`, `"3"`}

// doc collects the fields of an object.
type doc struct {
	keys []string
	vals [][]byte
}

func (d *doc) add(k string, v []byte) {
	d.keys = append(d.keys, k)
	d.vals = append(d.vals, v)
}

func (d *doc) bytes() []byte { return vsym.JObj(d.keys, d.vals...) }

// CheckSecretDocument: arbitrary documents.
func CheckSecretDocument() {
	var d doc
	ok, id := true, int64(0)
	secret := ristretto.NewScalar()
	switch i := vsym.Choose("id", 2+len(junk)); i {
	case 0: // missing
		ok = false
	case 1:
		id = int64(vsym.U64("id"))
		d.add("id", vsym.JNum(id))
		if id < 1 || id > 65535 {
			ok = false
			vsym.Cover("id-out-of-range")
		}
	default:
		d.add("id", []byte(junk[i-2]))
		ok = false
	}
	switch i := vsym.Choose("secret", 3+len(junk)); i {
	case 0:
		ok = false
	case 1:
		b := vsym.Bytes("secret", 32)
		d.add("secret", vsym.JB64(b))
		if _, err := secret.SetCanonicalBytes(b); err != nil {
			ok = false
			vsym.Cover("secret-not-canonical")
		}
	case 2:
		b := vsym.Bytes("secret", vsym.Choose("len", 35))
		vsym.Assume(len(b) != 32)
		d.add("secret", vsym.JB64(b))
		ok = false
	default:
		d.add("secret", []byte(junk[i-3]))
		ok = false
	}
	b := d.bytes()
	var sk eddsa.SecretShare
	var err error
	if vsym.Choose("decoder", 2) == 0 {
		err = json.Unmarshal(b, &sk)
	} else {
		err = sk.UnmarshalJSON(b)
	}
	if !ok {
		vsym.Assert(err != nil, "secret-document-refused")
		vsym.Cover("refused")
		return
	}
	vsym.Assert(err == nil, "secret-document-accepted")
	vsym.Assert(int64(sk.ID) == id && lib.SEq(&sk.Secret, secret) && lib.EEq(&sk.Public, lib.Base(secret)), "secret-loaded-exactly")
	vsym.Cover("accepted")
}

var badKeys = []string{"0", "65536", "", "x", "-1", "1.0", "65537"}

// element is the document of an arbitrary element.
func element(e *ristretto.Element) []byte { return vsym.JB64(e.Bytes()) }

// CheckPublicDocument: arbitrary documents.
func CheckPublicDocument() {
	var d, s doc
	ok, exact := true, true
	n := vsym.Choose("n", 3+vsym.Tier())
	t := int64(0)
	odd := false // in the quick tier, one field at a time has junk in it
	free := func() bool { return !odd || vsym.Tier() > 0 }
	switch i := vsym.Choose("t", 3); i {
	case 0:
		exact = false // not said what a missing threshold means
	case 1:
		t = int64(vsym.U64("t"))
		d.add("t", vsym.JNum(t))
	case 2:
		odd = true
		k := vsym.Choose("junk", len(junk))
		d.add("t", []byte(junk[k]))
		if junk[k] == "null" {
			exact = false
		} else {
			ok = false
		}
	}
	ids := lib.SymIDs(n)
	var es []*ristretto.Element
	bad := -1
	kind := 0
	if n > 0 && free() {
		if bad = vsym.Choose("bad", n+1) - 1; bad >= 0 {
			kind = 1 + vsym.Choose("kind", 3)
			ok = false
			odd = true
		}
	}
	for i, id := range ids {
		e := vsym.Element("share")
		es = append(es, e)
		k, v := vsym.JKeyID(uint16(id)), element(e)
		if i == bad {
			switch kind {
			case 1:
				k = badKeys[vsym.Choose("key", len(badKeys))]
			case 2:
				v = []byte(junk[vsym.Choose("value", len(junk))])
			case 3:
				b := vsym.Bytes("share", 32)
				if _, err := ristretto.NewIdentityElement().SetCanonicalBytes(b); err == nil {
					vsym.Assume(false)
				}
				v = vsym.JB64(b)
			}
		}
		s.add(k, v)
	}
	switch i := vsym.Choose("shares", 3); {
	case i == 0 || n > 0:
		d.add("shares", s.bytes())
	case i == 1:
		d.add("shares", []byte(junk[vsym.Choose("junk", len(junk))]))
	}
	g := group(ids, es)
	switch i := vsym.Choose("groupkey", 4); i {
	case 0:
		ok = false
		vsym.Cover("no-group-key")
	case 1:
		d.add("groupkey", element(g))
	case 2:
		o := vsym.Element("other")
		d.add("groupkey", element(o))
		if !lib.EEq(o, g) {
			ok = false
			vsym.Cover("other-group-key")
		}
	case 3:
		vsym.Assume(free())
		d.add("groupkey", []byte(junk[vsym.Choose("junk", len(junk))]))
		ok = false
	}
	if t < 0 || t >= int64(n) {
		ok = false
		vsym.Cover("threshold-out-of-range")
	}
	b := d.bytes()
	var p eddsa.Public
	var err error
	if vsym.Choose("decoder", 2) == 0 {
		err = json.Unmarshal(b, &p)
	} else {
		err = p.UnmarshalJSON(b)
	}
	if !ok {
		vsym.Assert(err != nil, "public-document-refused")
		vsym.Cover("refused")
		return
	}
	if exact {
		vsym.Assert(err == nil, "public-document-accepted")
	}
	if err == nil {
		is(&p, party.Size(t), ids, es, "public-loaded-exactly")
		vsym.Cover("accepted")
	}
}

// CheckNewPublic: public material put together by a caller.
func CheckNewPublic() {
	n := vsym.Choose("n", 4)
	m := map[party.ID]*ristretto.Element{}
	ok := true
	for i, id := range lib.SymIDs(n) {
		e := vsym.Element("share")
		if i == 0 {
			switch vsym.Choose("bad", 3) {
			case 1:
				id = 0
				ok = false
			case 2:
				e = nil
				ok = false
			}
		}
		m[id] = e
	}
	t := party.Size(vsym.U16("t"))
	p, err := eddsa.NewPublic(m, t)
	if !ok || int(t) >= n {
		vsym.Assert(err != nil && p == nil, "inconsistent-material-refused")
		vsym.Cover("refused")
	} else {
		vsym.Assert(err == nil && p != nil, "material-accepted")
		vsym.Cover("accepted")
	}
}

// CheckUse: loaded material signs.
func CheckUse() {
	ids := lib.SymIDs(2 + vsym.Choose("n", 2))
	k, _ := lib.RunKeygen(ids, 1)
	secrets := map[party.ID]*eddsa.SecretShare{}
	for _, x := range k {
		b, err := x.Out.SecretKey.MarshalJSON()
		if vsym.Choose("binary", 2) == 1 {
			b, err = x.Out.SecretKey.MarshalBinary()
			vsym.Assert(err == nil, "secret-encodes")
			var s eddsa.SecretShare
			vsym.Assert(s.UnmarshalBinary(b) == nil, "secret-decodes")
			secrets[x.ID] = &s
			continue
		}
		vsym.Assert(err == nil, "secret-encodes")
		var s eddsa.SecretShare
		vsym.Assert(json.Unmarshal(b, &s) == nil, "secret-decodes")
		secrets[x.ID] = &s
	}
	b, err := json.Marshal(k[0].Out.Public)
	vsym.Assert(err == nil, "public-encodes")
	var pub eddsa.Public
	vsym.Assert(json.Unmarshal(b, &pub) == nil, "public-decodes")
	vsym.Assert(pub.Equal(k[1].Out.Public), "public-equal")
	signers := ids[:2]
	s := lib.NewSign(signers, secrets, &pub, []byte("stored"), 0)
	sts := lib.SGStates(s)
	lib.Round(sts, lib.Round(sts, lib.Round(sts, nil)))
	for _, x := range s {
		vsym.Assert(x.St.WaitForError() == nil && x.Out.Signature != nil, "loaded-material-signs")
		vsym.Assert(k[0].Out.Public.GroupKey.Verify([]byte("stored"), x.Out.Signature), "signature-valid")
	}
	vsym.Cover("signed")
}

// CheckMany: material of more parties.
func CheckMany() {
	vsym.Deep()
	n := vsym.Count("n", lib.Limit(), 10, 258)
	ids := lib.Many(n)
	t := vsym.Count("t", n-1, 1, n-1)
	m := map[party.ID]*ristretto.Element{}
	var es []*ristretto.Element
	for _, id := range ids {
		e := vsym.Element("share")
		es = append(es, lib.CopyE(e))
		m[id] = e
	}
	p, err := eddsa.NewPublic(m, party.Size(t))
	vsym.Assert(err == nil, "material-accepted")
	b, err := json.Marshal(p)
	vsym.Assert(err == nil, "public-encodes")
	q := new(eddsa.Public)
	vsym.Assert(json.Unmarshal(b, q) == nil, "public-decodes")
	is(q, party.Size(t), ids, es, "public-survives")
	vsym.Assert(q.Equal(p) && p.Equal(q), "public-equal")
	vsym.Cover("many")
}

// CheckKept: documents belong to the caller, and loaded material does not
// depend on the document or on what else was loaded.
func CheckKept() {
	p, ids, es := material(1 + vsym.Choose("n", 2))
	o, oids, oes := material(2)
	t, ot := p.Threshold, o.Threshold
	a, err := json.Marshal(p)
	vsym.Assert(err == nil, "public-encodes")
	c, err := o.MarshalJSON()
	vsym.Assert(err == nil, "public-encodes")
	var x, y, z eddsa.Public
	vsym.Assert(json.Unmarshal(a, &x) == nil && y.UnmarshalJSON(c) == nil && z.UnmarshalJSON(a) == nil, "public-decodes")
	for i := range a {
		a[i] = 'x'
	}
	is(&x, t, ids, es, "loaded-independent-of-document")
	is(&y, ot, oids, oes, "loaded-independent-of-document")
	for _, id := range ids {
		z.Shares[id].Add(z.Shares[id], ristretto.NewGeneratorElement())
	}
	z.PartyIDs[0] = 0
	delete(z.Shares, ids[len(ids)-1])
	is(&x, t, ids, es, "loaded-twice-independent")
	is(p, t, ids, es, "loaded-is-independent")
	vsym.Assert(json.Unmarshal(c, &z) == nil, "public-decodes")
	is(&z, ot, oids, oes, "public-survives")
	// secrets
	u, v := eddsa.NewSecretShare(party.ID(1+vsym.U16("id")&0xff), vsym.Scalar("secret")), eddsa.NewSecretShare(7, vsym.Scalar("secret"))
	ub, err := u.MarshalBinary()
	vsym.Assert(err == nil, "secret-encodes")
	keep := append([]byte{}, ub...)
	vb, err := v.MarshalBinary()
	vsym.Assert(err == nil && lib.BytesEq(ub, keep), "earlier-encoding-kept")
	for i := range vb {
		vb[i] = 0xff
	}
	vsym.Assert(lib.BytesEq(ub, keep), "earlier-encoding-kept")
	var l eddsa.SecretShare
	vsym.Assert(l.UnmarshalBinary(ub) == nil, "secret-decodes")
	for i := range ub {
		ub[i] = 0xff
	}
	vsym.Assert(l.Equal(u) && lib.SEq(&l.Secret, &u.Secret) && l.ID == u.ID && lib.EEq(&l.Public, lib.Base(&u.Secret)), "secret-survives")
	ub, err = u.MarshalBinary()
	vsym.Assert(err == nil && lib.BytesEq(ub, keep), "encoding-repeatable")
	vsym.Cover("kept")
}
