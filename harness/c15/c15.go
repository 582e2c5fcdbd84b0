// Package c15: Lagrange coefficients.
package c15

import (
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/verifh/lib"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/vsym"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

const Bounds = "1..5 (quick) or 1..6 arbitrary distinct IDs in increasing, decreasing or rotated order, every member position, arbitrary polynomial coefficients; single coefficients for 6 (quick) or 6..8 arbitrary IDs; fixed lists of up to 10 IDs, of 20, and of the numbers up to 36 (thorough 70) that the code treats specially and 258; arbitrary non-members and ID 0"

const Assumptions = "scalars form the prime field of the group order and elements the group over it"

// ids chooses n arbitrary distinct IDs in some order.
func ids(n int) party.IDSlice {
	inc := lib.SymIDs(n)
	out := make(party.IDSlice, n)
	order := vsym.Choose("order", 3)
	for i, id := range inc {
		switch order {
		case 0:
			out[i] = id
		case 1:
			out[n-1-i] = id
		case 2:
			out[(i+1)%n] = id
		}
	}
	if order == 2 && n > 2 {
		out[0], out[1] = out[1], out[0]
	}
	return out
}

func max() int {
	if vsym.Tier() > 0 {
		return 6
	}
	return 5
}

// coefficients checks them all, and uses them for interpolation.
func coefficients(l party.IDSlice) {
	before := l.Copy()
	xs := lib.IDScalars(l)
	f := make([]*ristretto.Scalar, len(l))
	for i := range f {
		f[i] = vsym.Scalar("coefficient")
	}
	sum := ristretto.NewScalar()
	for j, id := range l {
		c, err := id.Lagrange(l)
		vsym.Assert(err == nil && c != nil, "member-accepted")
		vsym.Assert(lib.SEq(c, lib.RefLagrange(xs, j, ristretto.NewScalar())), "coefficient-right")
		y := ristretto.NewScalar()
		for k := len(f) - 1; k >= 0; k-- {
			y = lib.SAdd(lib.SMul(y, xs[j]), f[k])
		}
		sum = lib.SAdd(sum, lib.SMul(c, y))
	}
	vsym.Assert(lib.SEq(sum, f[0]), "shares-combine-to-value-at-zero")
	vsym.Assert(lib.SameIDs(before, l), "list-untouched")
	vsym.Cover("interpolated")
}

// CheckArbitrary: arbitrary IDs.
func CheckArbitrary() {
	coefficients(ids(1 + vsym.Choose("n", max())))
}

// CheckFixed: longer lists.
func CheckFixed() {
	coefficients(lib.IDSets[vsym.Choose("ids", len(lib.IDSets))].Copy())
}

// CheckLarge: coefficients for more arbitrary IDs.
func CheckLarge() {
	n := 6
	if vsym.Tier() > 0 {
		n += vsym.Choose("n", 3)
	}
	l := lib.SymIDs(n)
	xs := lib.IDScalars(l)
	j := vsym.Choose("who", n)
	c, err := l[j].Lagrange(l)
	vsym.Assert(err == nil && c != nil, "member-accepted")
	vsym.Assert(lib.SEq(c, lib.RefLagrange(xs, j, ristretto.NewScalar())), "coefficient-right")
	vsym.Cover("large")
}

// CheckHistory: coefficients for one list do not depend on those that were
// computed for another, which has most IDs in common, or lay in the same place.
func CheckHistory() {
	n := 2 + vsym.Choose("n", 3)
	a := lib.SymIDs(n)
	k := vsym.Choose("which", n)
	other := party.ID(vsym.U16("other"))
	vsym.Assume(other != 0)
	for _, id := range a {
		vsym.Assume(other != id)
	}
	b := a.Copy()
	check := func(l party.IDSlice) {
		xs := lib.IDScalars(l)
		for j, id := range l {
			c, err := id.Lagrange(l)
			vsym.Assert(err == nil && c != nil, "member-accepted")
			vsym.Assert(lib.SEq(c, lib.RefLagrange(xs, j, ristretto.NewScalar())), "coefficient-right")
		}
	}
	check(a)
	if vsym.Choose("in place", 2) == 1 {
		a[k] = other
		check(a)
		vsym.Cover("in place")
		return
	}
	b[k] = other
	check(b)
	check(a)
	if n > 2 {
		// fewer IDs
		check(a[:n-1])
		check(a[1:])
	}
	vsym.Cover("history")
}

// CheckRefusal: ID zero and non-members.
func CheckRefusal() {
	n := vsym.Choose("n", max()+1)
	l := ids0(n)
	id := party.ID(vsym.U16("who"))
	member := false
	for _, x := range l {
		if x == id {
			member = true
		}
	}
	c, err := id.Lagrange(l)
	if id == 0 || !member {
		vsym.Assert(err != nil && c == nil, "non-member-refused")
		if id == 0 {
			vsym.Cover("zero")
		} else {
			vsym.Cover("non-member")
		}
		return
	}
	vsym.Assert(err == nil, "member-accepted")
	vsym.Cover("member")
}

func ids0(n int) party.IDSlice {
	if n == 0 {
		return nil
	}
	return ids(n)
}

// CheckGroupKey: the group key of public shares is their interpolation.
func CheckGroupKey() {
	var l party.IDSlice
	if i := vsym.Choose("ids", max()+1); i < max() {
		l = lib.SymIDs(i + 1)
	} else {
		l = lib.IDSets[9]
	}
	t := party.Size(vsym.U16("threshold"))
	vsym.Assume(int(t) < len(l))
	if len(l) <= 3 {
		vsym.MapOrder(2)
	} else {
		vsym.MapOrder(1)
	}
	shares := map[party.ID]*ristretto.Element{}
	want := ristretto.NewIdentityElement()
	xs := lib.IDScalars(l)
	for j, id := range l {
		e := vsym.Element("share")
		shares[id] = e
		want = lib.EAdd(want, lib.EMul(lib.RefLagrange(xs, j, ristretto.NewScalar()), e))
	}
	p, err := eddsa.NewPublic(shares, t)
	vsym.Assert(err == nil && p != nil, "public-accepted")
	vsym.Assert(p.GroupKey.Equal(eddsa.NewPublicKeyFromPoint(want)), "group-key-interpolates")
	vsym.Assert(lib.SameIDs(p.PartyIDs, l) && p.Threshold == t && len(p.Shares) == len(l), "public-complete")
	vsym.Cover("group-key")
}

// CheckMany: long lists.
func CheckMany() {
	vsym.Deep()
	n := vsym.Count("n", lib.Limit(), 20, 258)
	l := lib.Many(n)
	xs := lib.IDScalars(l)
	j := vsym.Choose("who", 3) * (n - 1) / 2
	c, err := l[j].Lagrange(l)
	vsym.Assert(err == nil && c != nil, "member-accepted")
	vsym.Assert(lib.SEq(c, lib.RefLagrange(xs, j, ristretto.NewScalar())), "coefficient-right")
	vsym.Cover("many")
}
