package main

import "math/big"

// maxBits bounds the number of significant bits.
func (p *Path) maxBits(t *Term, depth int) int {
	if depth > 12 {
		return t.w
	}
	r := t.w
	switch t.op {
	case OConst:
		return t.k.BitLen()
	case OZext:
		return p.maxBits(t.a, depth+1)
	case OConcat:
		if h := p.maxBits(t.a, depth+1); h > 0 {
			return h + t.b.w
		}
		return p.maxBits(t.b, depth+1)
	case OMul:
		r = p.maxBits(t.a, depth+1) + p.maxBits(t.b, depth+1)
	case OAdd:
		r = max(p.maxBits(t.a, depth+1), p.maxBits(t.b, depth+1)) + 1
	case OBAnd:
		r = min(p.maxBits(t.a, depth+1), p.maxBits(t.b, depth+1))
	case OBOr, OBXor:
		r = max(p.maxBits(t.a, depth+1), p.maxBits(t.b, depth+1))
	case OLshr:
		if t.b.isConst() && t.b.k.IsInt64() && t.b.k.Int64() < int64(t.w) {
			r = max(0, p.maxBits(t.a, depth+1)-int(t.b.k.Int64()))
		}
	case OExtract:
		if t.lo == 0 {
			r = p.maxBits(t.a, depth+1)
		}
	case OIte:
		r = max(p.maxBits(t.b, depth+1), p.maxBits(t.c, depth+1))
	}
	return min(r, t.w)
}

// scalarOf is the field element of a bit-vector below 2^252. Sums, products
// and differences that do not wrap around become field operations; where
// wrapping is possible the path is split on it.
func (p *Path) scalarOf(t *Term) *FF {
	return p.scalarOfD(t, 0)
}

func (p *Path) scalarOfD(t *Term, depth int) *FF {
	t = p.al.find(t)
	if t.isConst() || depth > 16 {
		return p.al.OfBV(t)
	}
	pool := p.pool
	switch t.op {
	case OExtract:
		if t.lo == 0 && p.maxBits(t.a, 0) <= t.w {
			return p.scalarOfD(t.a, depth+1)
		}
	case OConcat:
		if t.a.isConst() && t.a.k.Sign() == 0 {
			return p.scalarOfD(t.b, depth+1)
		}
	case OMul:
		if m, n := p.maxBits(t.a, 0), p.maxBits(t.b, 0); m+n > t.w {
			w := m + n
			wide := pool.Bin(OMul, p.fit(t.a, w), p.fit(t.b, w))
			if p.Decide(pool.Cmp(OUlt, pool.BigConst(w, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.w)), big.NewInt(1))), wide)) {
				break
			}
		}
		return p.al.Mul(p.scalarOfD(t.a, depth+1), p.scalarOfD(t.b, depth+1))
	case OAdd:
		if max(p.maxBits(t.a, 0), p.maxBits(t.b, 0)) >= t.w {
			w := t.w + 1
			if p.Decide(pool.Cmp(OUlt, pool.BigConst(w, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.w)), big.NewInt(1))), pool.Bin(OAdd, pool.Zext(t.a, w), pool.Zext(t.b, w)))) {
				break
			}
		}
		return p.al.Add(p.scalarOfD(t.a, depth+1), p.scalarOfD(t.b, depth+1))
	case OSub:
		if p.Decide(pool.Cmp(OUlt, t.a, t.b)) {
			break
		}
		return p.al.Sub(p.scalarOfD(t.a, depth+1), p.scalarOfD(t.b, depth+1))
	case OIte:
		if p.Decide(t.a) {
			return p.scalarOfD(t.b, depth+1)
		}
		return p.scalarOfD(t.c, depth+1)
	}
	return p.al.OfBV(t)
}

// fit gives t the width w, which holds its value.
func (p *Path) fit(t *Term, w int) *Term {
	if t.w < w {
		return p.pool.Zext(t, w)
	}
	if t.w > w {
		return p.pool.Extract(t, w-1, 0)
	}
	return t
}
