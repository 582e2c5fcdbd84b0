// Package c16: party IDs and lists.
package c16

import (
	"bytes"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
)

const Bounds = "lists of 0..4 (quick) or 0..5 arbitrary 16-bit IDs, zero and repetitions included; one list each of 20 and the numbers up to 36 (thorough 70) that the code treats specially and 258; all IDs; byte strings of up to 4 bytes; texts of up to 6 (quick) or 8 arbitrary bytes"

const Assumptions = ""

func size(name string) int { return vsym.Choose(name, 5+vsym.Tier()) }

// list is arbitrary; sorted restricts it to non-decreasing ones.
func list(n int, sorted bool) []party.ID {
	l := make([]party.ID, n)
	for i := range l {
		l[i] = party.ID(vsym.U16("id"))
		if sorted && i > 0 {
			vsym.Assume(l[i-1] <= l[i])
		}
	}
	return l
}

func count(l []party.ID, x party.ID) int {
	n := 0
	for _, y := range l {
		if x == y {
			n++
		}
	}
	return n
}

// CheckNew: building a list.
func CheckNew() {
	in := list(size("n"), false)
	keep := append([]party.ID{}, in...)
	out := party.NewIDSlice(in)
	vsym.Assert(len(out) == len(in) && out.N() == party.Size(len(in)), "all-kept")
	for i := range in {
		vsym.Assert(in[i] == keep[i], "input-untouched")
	}
	for i := 1; i < len(out); i++ {
		vsym.Assert(out[i-1] <= out[i], "sorted")
	}
	x := party.ID(vsym.U16("any"))
	vsym.Assert(count(in, x) == count(out, x), "same-members")
	vsym.Assert(out.Contains(x) == (count(keep, x) > 0), "membership")
	for i := range out {
		out[i]++
	}
	for i := range in {
		vsym.Assert(in[i] == keep[i], "list-independent-of-input")
	}
	vsym.Cover("list-built")
}

// CheckSets: membership, subset, equality, copy.
func CheckSets() {
	a := party.IDSlice(list(vsym.Choose("a", 4+vsym.Tier()), true))
	b := party.IDSlice(list(vsym.Choose("b", 4+vsym.Tier()), true))
	subset, equal := true, len(a) == len(b)
	for i, x := range a {
		if count(b, x) == 0 {
			subset = false
		}
		if equal && b[i] != x {
			equal = false
		}
	}
	ka, kb := append(party.IDSlice{}, a...), append(party.IDSlice{}, b...)
	vsym.Assert(a.IsSubsetOf(b) == subset, "subset")
	vsym.Assert(a.Equal(b) == equal, "equal")
	if subset {
		vsym.Cover("subset")
	} else {
		vsym.Cover("not-subset")
	}
	if equal {
		vsym.Cover("equal")
	} else {
		vsym.Cover("not-equal")
	}
	c := a.Copy()
	vsym.Assert(lib.SameIDs(a, c), "copy-equal")
	for i := range c {
		c[i]++
	}
	vsym.Assert(lib.SameIDs(a, ka) && lib.SameIDs(b, kb), "lists-untouched")
}

// CheckContains: membership in longer lists.
func CheckContains() {
	l := party.IDSlice(list(vsym.Choose("n", 7+2*vsym.Tier()), true))
	x := party.ID(vsym.U16("any"))
	in := count(l, x) > 0
	vsym.Assert(l.Contains(x) == in, "membership")
	if in {
		vsym.Cover("member")
	} else {
		vsym.Cover("no-member")
	}
}

// CheckID: encodings of IDs.
func CheckID() {
	a, b := party.ID(vsym.U16("a")), party.ID(vsym.U16("b"))
	ea, eb := a.Bytes(), b.Bytes()
	vsym.Assert(len(ea) == party.IDByteSize && len(eb) == party.IDByteSize, "encoding-length")
	vsym.Assert(bytes.Equal(ea, eb) == (a == b), "encodings-distinct")
	d, err := party.FromBytes(ea)
	vsym.Assert(err == nil && d == a, "binary-round-trip")
	vsym.Assert(lib.SEq(a.Scalar(), lib.IDScalar(a)), "scalar-of-same-value")
	vsym.Assert(lib.SEq(a.Scalar(), b.Scalar()) == (a == b), "scalars-distinct")
	t, err := a.MarshalText()
	vsym.Assert(err == nil, "text-encodes")
	vsym.Assert(string(t) == a.String(), "text-is-string")
	var c party.ID
	vsym.Assert(c.UnmarshalText(t) == nil && c == a, "text-round-trip")
	if a == b {
		vsym.Cover("same")
	} else {
		vsym.Cover("different")
	}
}

// CheckRandom: a random identifier is valid.
func CheckRandom() {
	for i := vsym.Often(); i > 0; i-- {
		vsym.Assert(party.RandID() != 0, "random-identifier-valid")
	}
	vsym.Cover("random")
}

// CheckBytes: decoding bytes.
func CheckBytes() {
	b := vsym.Bytes("bytes", vsym.Choose("n", 5))
	keep := append([]byte{}, b...)
	id, err := party.FromBytes(b)
	vsym.Assert((err == nil) == (len(b) >= party.IDByteSize), "short-bytes-refused")
	if err == nil {
		vsym.Assert(bytes.Equal(id.Bytes(), keep[:2]), "bytes-round-trip")
		vsym.Cover("decoded")
	} else {
		vsym.Cover("refused")
	}
	vsym.Assert(bytes.Equal(b, keep), "bytes-untouched")
}

// CheckText: decoding text.
func CheckText() {
	t := vsym.Bytes("text", vsym.Choose("n", 7+2*vsym.Tier()))
	keep := append([]byte{}, t...)
	old := party.ID(vsym.U16("old"))
	id := old
	err := id.UnmarshalText(t)
	ok, v := len(keep) > 0, uint64(0)
	for _, c := range keep {
		if c < '0' || c > '9' {
			ok = false
			break
		}
		v = v*10 + uint64(c-'0')
	}
	if ok && v > 65535 {
		ok = false
		vsym.Cover("overflow")
	}
	vsym.Assert((err == nil) == ok, "malformed-text-refused")
	if ok {
		vsym.Assert(uint64(id) == v, "text-value")
		vsym.Cover("text")
	} else {
		vsym.Cover("malformed")
	}
	vsym.Assert(bytes.Equal(t, keep), "text-untouched")
}

var odd = []string{"0x1F", "010", "1_0", "+5", "-1", " 5", "5 ", "1e1", "0b1", "65535", "65536", "4294967297", "18446744073709551617", "1.0", "０", "0o7", "\n1", "00000000001"}

// CheckOddText: texts of numbers in other notations.
func CheckOddText() {
	s := odd[vsym.Choose("text", len(odd))]
	var id party.ID
	err := id.UnmarshalText([]byte(s))
	switch s {
	case "010":
		vsym.Assert(err == nil && id == 10, "decimal-only")
	case "65535":
		vsym.Assert(err == nil && id == 65535, "decimal-only")
	case "00000000001":
		vsym.Assert(err == nil && id == 1, "decimal-only")
	default:
		vsym.Assert(err != nil, "malformed-text-refused")
	}
	vsym.Cover("odd")
}

// CheckLong: long lists.
func CheckLong() {
	vsym.Deep()
	n := vsym.Count("n", lib.Limit(), 20, 258)
	in := lib.Many(n)
	for i := 0; i < n/2; i++ { // scramble
		j := i * 7 % n
		in[i], in[j] = in[j], in[i]
	}
	x := party.ID(vsym.U16("x"))
	out := party.NewIDSlice(in)
	vsym.Assert(lib.SameIDs(out, lib.Many(n)), "sorted")
	vsym.Assert(out.Contains(x) == (count(in, x) > 0), "membership")
	c := out.Copy()
	vsym.Assert(c.Equal(out) && c.IsSubsetOf(out) && out[n/2:].IsSubsetOf(out) && !out.IsSubsetOf(out[1:]), "subset")
	c[n-1]++
	vsym.Assert(!c.Equal(out) && !out.Equal(c) && !c.IsSubsetOf(out), "equal")
	vsym.Cover("long")
}

// CheckKept: encodings belong to the caller, and so do lists.
func CheckKept() {
	a, b := party.ID(vsym.U16("a")), party.ID(vsym.U16("b"))
	ea, ta := a.Bytes(), text(a)
	ka, kt := append([]byte{}, ea...), string(ta)
	eb, tb := b.Bytes(), text(b)
	vsym.Assert(bytes.Equal(ea, ka) && string(ta) == kt, "earlier-encoding-kept")
	for i := range eb {
		eb[i] = 0xff
	}
	for i := range tb {
		tb[i] = 'x'
	}
	vsym.Assert(bytes.Equal(ea, ka) && string(ta) == kt, "earlier-encoding-kept")
	sa := a.Scalar()
	sa.Add(sa, lib.One())
	vsym.Assert(lib.SEq(a.Scalar(), lib.IDScalar(a)) && lib.SEq(b.Scalar(), lib.IDScalar(b)), "scalar-of-same-value")
	vsym.Assert(bytes.Equal(a.Bytes(), ka) && string(text(a)) == kt, "encoding-repeatable")
	// decoding into an ID in use
	c := b
	vsym.Assert(c.UnmarshalText(ta) == nil && c == a, "text-round-trip")
	// lists
	in := []party.ID{a, b, 7}
	l := party.NewIDSlice(in)
	k := l.Copy()
	o := party.NewIDSlice([]party.ID{9, b})
	in[0], in[1] = in[1]+1, 0
	vsym.Assert(lib.SameIDs(l, k), "list-independent-of-input")
	k[1]++
	k = append(k[:1], 5)
	l2 := party.NewIDSlice([]party.ID{a, b, 7})
	vsym.Assert(lib.SameIDs(l, l2) && len(o) == 2, "list-independent-of-copy")
	o[0] = 0
	_ = append(l2[:1], 3, 3)
	vsym.Assert(lib.SameIDs(l, party.NewIDSlice([]party.ID{7, a, b})), "list-independent-of-others")
	vsym.Cover("kept")
}

func text(id party.ID) []byte {
	t, err := id.MarshalText()
	vsym.Assert(err == nil, "text-encodes")
	return t
}
