package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one resolved branch of a path.
type Decision struct {
	K byte   // 'b' bit-vector branch, 'f' field branch, 'c' choice, 'v' concretised value
	V uint64 // 0/1, choice index or value
	F bool   // forced: the other side was shown infeasible
}

type workItem struct {
	fn     *ssa.Function
	prefix []Decision
	model  map[string]*big.Int
	depth  int
}

type abortKind int

const (
	abDone abortKind = iota
	abInfeasible
	abAssume
	abUnsupported
	abSteps
	abViolationEnd
	abDeadlock
	abExit
)

type pathAbort struct {
	kind abortKind
	msg  string
}

type GoPanic struct {
	v     Value // *Iface or nil
	stack string
	rt    bool
}

type Input struct {
	Name string
	Kind string
	W    int
	N    int
	T    *Term   // U8.. / Bool
	Bs   []Value // Bytes
	F    *FF
	Tau  Value
	C    uint64 // concrete choice
	Doc  string
}

type Violation struct {
	Label     string
	Msg       string
	Fn        string
	Uncertain bool
	Path      int
	Repl      []map[string]any
	Trace     []string
	Cfg       string
	Confirmed bool
	Replay    string
	Detail    string
}

type encEntry struct {
	kind string // "scalar", "ristretto", "edwards"
	l    *FF
	tau  Value
	b    []Value // 32 byte values
	v    *Term
}

type hashEntry struct {
	in  []Value
	out []Value
	alg string
}

type uniEntry struct { // SetUniformBytes results
	in []Value
	f  *FF
	p  *PointV
}

type decEntry struct {
	in    []Value
	valid *Term
	pt    *PointV
	sc    *FF
}

type Path struct {
	eng        *Engine
	w          *Worker
	pool       *TermPool
	pools      map[*Struct]*poolV // contents of sync.Pool and clocks of atomic.Value objects
	al         *Algebra
	sol        *Solver
	pc         []*Term
	model      map[string]*big.Int
	prefix     []Decision
	taken      []Decision
	steps      int
	maxSteps   int
	nextObj    int
	globals    map[*ssa.Global]Value
	initDone   map[*ssa.Package]bool
	inputs     []*Input
	nameN      map[string]int
	encs       []*encEntry
	scByVar    map[*Term]*encEntry
	hashes     []*hashEntry
	unis       []*uniEntry
	decs       []*decEntry
	covers     map[string]bool
	trace      []string
	uncertain  bool
	violations []*Violation
	low3       map[string]*Term
	randLog    []*randBlock
	mapPerm    int
	freshN     map[string]int
	depth      int
	// scheduling
	gs         []*G
	cur        *G
	now        Value
	timers     []*timerV
	preempt    int
	delays     bool // every deviation from the default order counts
	races      *RaceRec
	regHandles []Value
	assertsN   int
	nonz       []*FF
	inInit     bool
	initNow    *ssa.Function
	curFn      []*ssa.Function
	hostPanic  any
	obs        []obsRec
	fn         *ssa.Function
	killAck    chan struct{}
	texts      []*textEntry
	stdout     []Value
	docs       []docEntry
	files      map[string][]Value
	decoders   map[Value]*decoderV
	blocked    map[string]bool
	fc         *fcurve // field level: the small curve
	fpolys     map[*Term]fpoly
	freps      map[string]*Term
	fvars      []*Term
	fcache     map[fkey][2]*Term
	asserts    map[string]int
	coverSeq   []string
	generic    bool
	lastNeq    string
	rel        *relData
	nextRand   []*FF
	hashLinked bool
	randFail   int
	randFailed bool
	forkEv     int
	preempted  bool
	randShort  []Value
	srcBytes   map[*Term]bool // bytes handed out by a short read
}

type obsRec struct {
	Label string
	B     []Value
	I     Value
}

type randBlock struct {
	b []Value
	f *FF // if consumed as a uniform scalar
}

// outOfTime gives up on the path some time after the end of exploration.
func (p *Path) outOfTime() {
	if time.Since(p.eng.deadline) > 40*time.Second {
		panic(&pathAbort{abUnsupported, "time budget"})
	}
}

func (p *Path) unsupported(format string, a ...any) {
	panic(&pathAbort{abUnsupported, fmt.Sprintf(format, a...) + p.where()})
}

func (p *Path) where() string {
	n := len(p.curFn)
	s := ""
	for i := n - 1; i >= 0 && i > n-5; i-- {
		s += " <- " + p.curFn[i].String()
	}
	return s
}

// ---- bit-vector decisions ----

func (p *Path) assertPC(t *Term) {
	if t.isTrue() {
		return
	}
	p.pc = append(p.pc, t)
	p.sol.Assert(t)
	p.al.learnEq(t)
	if p.model != nil {
		if t.eval(p.model, map[*Term]*big.Int{}).Sign() == 0 {
			p.model = nil
		}
	}
}

// Constrain adds a fact that must hold; the path dies if it cannot.
func (p *Path) Constrain(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(&pathAbort{abInfeasible, ""})
	}
	p.assertPC(t)
	if p.model == nil && len(p.taken) >= len(p.prefix) {
		p.ensureModel()
	}
}

func (p *Path) ensureModel() {
	if p.model != nil {
		return
	}
	p.outOfTime()
	r, m := p.sol.Check(nil, true)
	switch r {
	case Unsat:
		panic(&pathAbort{abInfeasible, ""})
	case Sat:
		p.model = m
	default:
		p.uncertain = true
		p.model = map[string]*big.Int{}
	}
}

func (p *Path) replaying() bool { return len(p.taken) < len(p.prefix) }

func (p *Path) nextPrefix(k byte) Decision {
	d := p.prefix[len(p.taken)]
	if d.K != k {
		panic(fmt.Sprintf("non-deterministic re-execution: want %c have %c (%v)", k, d.K, p.where()))
	}
	p.taken = append(p.taken, d)
	if len(p.taken) == len(p.prefix) {
		// leave replay mode: adopt the model found when this prefix was queued
		p.model = p.w.item.model
	}
	return d
}

func (p *Path) fork(d Decision, m map[string]*big.Int) {
	pre := make([]Decision, len(p.taken)+1)
	copy(pre, p.taken)
	pre[len(p.taken)] = d
	p.eng.push(&workItem{fn: p.fn, prefix: pre, model: m})
}

// Decide resolves a Bool term to a concrete branch, forking if both are feasible.
func (p *Path) Decide(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	if p.replaying() {
		d := p.nextPrefix('b')
		m := p.model
		p.model = nil
		t := c
		if d.V == 0 {
			t = p.pool.Not(c)
		}
		if !d.F {
			p.pc = append(p.pc, t)
			p.sol.Assert(t)
		}
		p.al.learnEq(t)
		p.model = m
		return d.V == 1
	}
	p.ensureModel()
	mv := c.eval(p.model, map[*Term]*big.Int{}).Sign() != 0
	other := c
	same := p.pool.Not(c)
	if mv {
		other, same = p.pool.Not(c), c
	}
	p.outOfTime()
	r, m := p.sol.Check([]*Term{other}, true)
	d := Decision{K: 'b'}
	if mv {
		d.V = 1
	}
	if r == Unsat {
		d.F = true
	} else {
		if r == Unknown {
			p.eng.note("solver unknown on a branch; both sides explored")
			m = nil
		}
		p.fork(Decision{K: 'b', V: 1 - d.V}, m)
	}
	p.taken = append(p.taken, d)
	if !d.F {
		p.pc = append(p.pc, same)
		p.sol.Assert(same)
	}
	p.al.learnEq(same)
	return mv
}

// Feasible reports whether c can hold on the current path (no commitment).
func (p *Path) mustBool(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return p.Decide(x)
	}
	panic(fmt.Sprintf("mustBool %T", v))
}

// Choose forks over n alternatives.
func (p *Path) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.replaying() {
		return int(p.nextPrefix('c').V)
	}
	p.ensureModel()
	for i := n - 1; i >= 1; i-- {
		p.fork(Decision{K: 'c', V: uint64(i)}, p.model)
	}
	p.taken = append(p.taken, Decision{K: 'c', V: 0})
	return 0
}

// Concrete resolves a symbolic integer to each feasible value in turn.
func (p *Path) Concrete(v Value) uint64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(uint64)
	}
	if t.isConst() {
		return t.k.Uint64()
	}
	n := 0
	for {
		var val uint64
		if p.replaying() {
			val = p.nextPrefix('v').V
		} else {
			p.ensureModel()
			val = t.eval(p.model, map[*Term]*big.Int{}).Uint64()
			p.taken = append(p.taken, Decision{K: 'v', V: val})
		}
		if p.Decide(p.pool.Eq(t, p.pool.Const(t.w, val))) {
			return val
		}
		if n++; n > 70000 {
			p.unsupported("concretising a wide value")
		}
	}
}

func (p *Path) fresh(name string, w int) *Term {
	p.freshN[name]++
	return p.pool.Var(fmt.Sprintf("%s#%d", name, p.freshN[name]), w)
}

// ---- field decisions ----

// isZeroFF decides f == 0, forking when the path leaves it open.
func (p *Path) isZeroFF(f *FF) bool {
	al := p.al
	if f.op == fConst {
		return f.k.Sign() == 0
	}
	rat, ok := al.Rat(f)
	if !ok {
		if al.FP(f).Sign() != 0 {
			// not identically zero, too large to analyse
			p.eng.note("field expression too large to expand; treated as generic")
			return p.forkFFGeneric(nil)
		}
		// agrees with zero at the random point: must be confirmed by the solver
		if p.eng.confirmIdentity(p, f) {
			return true
		}
		p.eng.note("identity not confirmed by solver")
		p.uncertain = true
		return true
	}
	if rat.num.isZero() {
		p.eng.noteIdentity(p, f)
		return true
	}
	return p.zeroPoly(rat.num)
}

func (p *Path) knownNonzero(q *Poly) bool {
	m, _ := q.monic()
	k := m.Key()
	for _, f := range p.nonz {
		r, ok := p.al.Rat(f)
		if !ok {
			continue
		}
		x, _ := r.num.monic()
		if x.Key() == k {
			return true
		}
	}
	return false
}

func (p *Path) addNonzero(q *Poly) {
	p.nonz = append(p.nonz, p.al.polyToFF(q))
	p.reconcile(q)
}

// reconcile keeps encodings in step with what was learned about the values
// they carry: equal values have equal bytes, different values different ones.
// With q == nil an equation was solved; otherwise q was found nonzero.
func (p *Path) reconcile(q *Poly) {
	n := len(p.encs)
	if n > 40 || q != nil && n > 14 {
		return
	}
	var key string
	if q != nil {
		m, _ := q.monic()
		key = m.Key()
	}
	tm := func(e *encEntry) *Term {
		if e.v != nil {
			return e.v
		}
		return p.concatLE(e.b)
	}
	for i, x := range p.encs {
		for _, y := range p.encs[:i] {
			if x.kind != y.kind || x.kind == "edwards" && !p.tauIdent(x.tau, y.tau) {
				continue
			}
			if q == nil {
				if p.identFF(x.l, y.l) && !sameBytes(x.b, y.b) {
					p.Constrain(p.pool.Eq(tm(x), tm(y)))
				}
				continue
			}
			r, ok := p.al.Rat(p.al.Sub(x.l, y.l))
			if !ok || r.num.isZero() {
				continue
			}
			m, _ := r.num.monic()
			if m.Key() == key {
				p.Constrain(p.pool.Not(p.pool.Eq(tm(x), tm(y))))
			}
		}
	}
}

// zeroPoly decides q == 0 for a non-constant-or-constant polynomial in unsolved variables.
func (p *Path) zeroPoly(q *Poly) bool {
	al := p.al
	if q.isZero() {
		return true
	}
	if q.isConst() {
		return false
	}
	// factors over bit-vector variables
	rest, _, pairs := al.factorBV(q)
	for _, pr := range pairs {
		a := al.vars[pr[0]]
		var c *Term
		if pr[1] < 0 {
			c = p.pool.Eq(a.bv, p.pool.Const(a.bv.w, 0))
		} else {
			b := al.vars[pr[1]]
			c = p.eqWide(a.bv, b.bv)
		}
		if p.Decide(c) {
			return true
		}
	}
	if rest.isConst() {
		return rest.isZero()
	}
	q = rest
	// x - const over a single bit-vector variable
	vs := q.varSet()
	if len(vs) == 1 {
		for vi, deg := range vs {
			v := al.vars[vi]
			if v.kind == VBV && deg == 1 {
				cs := q.coeffs(vi)
				k := new(big.Int).Mul(cs[0].constVal(), new(big.Int).ModInverse(cs[1].constVal(), ffQ))
				k.Neg(k).Mod(k, ffQ)
				if k.BitLen() > v.bv.w {
					return false
				}
				return p.Decide(p.pool.Eq(v.bv, p.pool.BigConst(v.bv.w, k)))
			}
		}
	}
	// monomial content
	mons := q.mons()
	content := map[int]bool{}
	for v := range vs {
		content[v] = true
	}
	for _, m := range mons {
		in := map[int]bool{}
		for _, v := range monVars(m) {
			in[v] = true
		}
		for v := range content {
			if !in[v] {
				delete(content, v)
			}
		}
	}
	if len(content) > 0 && (len(mons) > 1 || len(content) > 1 || len(monVars(mons[0])) > 1) {
		var cv []int
		for v := range content {
			cv = append(cv, v)
		}
		sort.Ints(cv)
		for _, v := range cv {
			if p.zeroPoly(polyVar(v)) {
				return true
			}
		}
		for _, v := range cv {
			for {
				d := q.divDiff(v, -1)
				if d == nil {
					break
				}
				q = d
			}
		}
		if q.isConst() {
			return false
		}
		return p.zeroPoly(q)
	}
	if p.knownNonzero(q) {
		return false
	}
	vs = q.varSet()
	// The latest variable decides: a value fixed before fresh randomness or a
	// hash output is produced coincides with it only with negligible probability.
	var latest *FVar
	allBV := true
	for vi := range vs {
		v := al.vars[vi]
		if v.kind != VBV {
			allBV = false
		}
		if latest == nil || v.time > latest.time {
			latest = v
		}
	}
	if latest.kind == VRand || latest.kind == VHash {
		return false
	}
	if allBV && p.wholeBV(q) != nil {
		return p.Decide(p.wholeBV(q))
	}
	// general: fork
	if p.replaying() {
		d := p.nextPrefix('f')
		if d.V == 1 {
			p.learnZero(q)
			return true
		}
		p.addNonzero(q)
		return false
	}
	p.ensureModel()
	p.fork(Decision{K: 'f', V: 1}, p.model)
	p.taken = append(p.taken, Decision{K: 'f', V: 0})
	p.addNonzero(q)
	return false
}

func (p *Path) forkFFGeneric(_ *Poly) bool {
	p.generic = true
	if p.replaying() {
		return p.nextPrefix('f').V == 1
	}
	p.ensureModel()
	p.fork(Decision{K: 'f', V: 1}, p.model)
	p.taken = append(p.taken, Decision{K: 'f', V: 0})
	return false
}

// wholeBV translates a polynomial in small bit-vector variables with small
// coefficients to an exact wide bit-vector equation, if it cannot wrap modulo q.
func (p *Path) wholeBV(q *Poly) *Term {
	const W = 250
	half := new(big.Int).Rsh(ffQ, 1)
	pos := p.pool.Const(W, 0)
	neg := p.pool.Const(W, 0)
	for _, m := range q.mons() {
		c := new(big.Int).Set(q.t[m])
		bits := 0
		negc := false
		if c.Cmp(half) > 0 {
			c.Sub(ffQ, c)
			negc = true
		}
		bits += c.BitLen()
		t := p.pool.BigConst(W, c)
		for _, v := range monVars(m) {
			fv := p.al.vars[v]
			if fv.bv == nil {
				return nil
			}
			bits += fv.bv.w
			t = p.pool.Bin(OMul, t, p.pool.Zext(fv.bv, W))
		}
		if bits > 240 {
			return nil
		}
		if negc {
			neg = p.pool.Bin(OAdd, neg, t)
		} else {
			pos = p.pool.Bin(OAdd, pos, t)
		}
	}
	return p.pool.Eq(pos, neg)
}

// learnZero records q == 0 by solving for a variable.
func (p *Path) learnZero(q *Poly) {
	al := p.al
	type cand struct {
		v     *FVar
		c     *Poly
		rest  *Poly
		score int
	}
	var best *cand
	for vi, deg := range q.varSet() {
		v := al.vars[vi]
		if deg != 1 || v.kind == VBV {
			continue
		}
		cs := q.coeffs(vi)
		c := cs[1]
		score := v.time
		if c.isConst() {
			score += 1 << 20
		} else if p.knownNonzero(c) {
			score += 1 << 19
		}
		if v.kind != VInput {
			score -= 1 << 21
		}
		if best == nil || score > best.score {
			best = &cand{v, c, cs[0], score}
		}
	}
	if best == nil {
		p.uncertain = true
		p.eng.note("non-linear field equation kept unsolved")
		return
	}
	if !best.c.isConst() && !p.knownNonzero(best.c) {
		// coefficient zero?
		if p.zeroPoly(best.c) {
			if !p.zeroFF(al.polyToFF(best.rest)) {
				panic(&pathAbort{abInfeasible, ""})
			}
			return
		}
	}
	if best.v.sub != nil { // solved meanwhile
		if !p.zeroFF(al.polyToFF(q)) {
			panic(&pathAbort{abInfeasible, ""})
		}
		return
	}
	e := al.Neg(al.polyToFF(best.rest))
	if best.c.isConst() {
		e = al.Mul(e, al.Const(new(big.Int).ModInverse(best.c.constVal(), ffQ)))
	} else {
		e = al.Mul(e, al.Inv(al.polyToFF(best.c)))
	}
	al.solve(best.v, e)
	p.reconcile(nil)
	// consistency with recorded disequalities
	for _, f := range p.nonz {
		if r, ok := al.Rat(f); ok && r.num.isZero() {
			panic(&pathAbort{abInfeasible, ""})
		}
	}
}

func (p *Path) zeroFF(f *FF) bool { return p.isZeroFF(f) }

func (p *Path) eqWide(a, b *Term) *Term {
	w := a.w
	if b.w > w {
		w = b.w
	}
	return p.pool.Eq(p.pool.Zext(a, w), p.pool.Zext(b, w))
}

func (p *Path) eqFF(a, b *FF) bool {
	if a == b {
		return true
	}
	return p.isZeroFF(p.al.Sub(a, b))
}

// identFF: are a and b the same function on this path (no forking)?
func (p *Path) identFF(a, b *FF) bool {
	if a == b {
		return true
	}
	if p.al.FP(a).Cmp(p.al.FP(b)) != 0 {
		return false
	}
	r, ok := p.al.Rat(p.al.Sub(a, b))
	if !ok {
		return true
	}
	return r.num.isZero()
}

// ---- bytes ----

// encOf finds the registered encoding block a 32-byte window carries.
func (p *Path) encAt(b []Value, i int) *encEntry {
	if i+32 > len(b) {
		return nil
	}
	t, ok := b[i].(*Term)
	if !ok {
		return nil
	}
	if t.op != OExtract || t.a.op != OVar || t.lo != 0 || t.a.w != 256 {
		return nil
	}
	e := p.scByVar[t.a]
	if e == nil {
		return nil
	}
	for k := 0; k < 32; k++ {
		if b[i+k] != e.b[k] {
			return nil
		}
	}
	return e
}

func byteEqKnown(a, b Value) (eq, known bool) {
	if a == b {
		return true, true
	}
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y, true
	}
	return false, false
}

// freshOf: the digest or random string a byte belongs to.
func freshOf(v Value) *Term {
	t, ok := v.(*Term)
	if !ok || t.op != OExtract || t.a.op != OVar {
		return nil
	}
	if strings.HasPrefix(t.a.name, "hash#") || strings.HasPrefix(t.a.name, "rand#") {
		return t.a
	}
	return nil
}

// bytesEq decides equality of two byte sequences.
func (p *Path) bytesEq(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	open := false
	for i := range a {
		eq, known := byteEqKnown(a[i], b[i])
		if known && !eq {
			if debugOn {
				p.lastNeq = fmt.Sprintf("byte %d: %v vs %v", i, a[i], b[i])
			}
			return false
		}
		if !known {
			open = true
		}
	}
	if !open {
		return true
	}
	// texts of a kind are equal exactly if what they stand for is
	if x, y := p.textOf(a, "b64"), p.textOf(b, "b64"); x != nil && y != nil && x.enc == y.enc {
		return p.bytesEq(x.src, y.src)
	}
	if x, y := p.textOf(a, "dec"), p.textOf(b, "dec"); x != nil && y != nil {
		return p.Decide(p.eqWide(x.num, y.num))
	}
	// different digests (or fresh random strings) do not agree on 128 bits
	run := 0
	for i := range a {
		x, y := freshOf(a[i]), freshOf(b[i])
		_, cx := a[i].(uint64)
		_, cy := b[i].(uint64)
		if x != y && (x != nil || cx && !p.hashLinked) && (y != nil || cy && !p.hashLinked) {
			if run++; run >= 16 {
				return false
			}
		} else {
			run = 0
		}
	}
	// bits first: cheap refutation
	c := p.pool.T
	type cst struct {
		e *encEntry
		l *FF
	}
	var consts []cst
	type blk struct{ x, y *encEntry }
	var blks []blk
	for i := 0; i < len(a); i++ {
		if a[i] == b[i] {
			continue
		}
		ea, eb := p.encAt(a, i), p.encAt(b, i)
		if ea != nil && eb != nil && ea.kind == eb.kind {
			if ea != eb {
				blks = append(blks, blk{ea, eb})
			}
			i += 31
			continue
		}
		// an encoding against concrete bytes
		e, o := ea, b
		if e == nil {
			e, o = eb, a
		}
		if e != nil && i+32 <= len(o) && p.allConcrete(o[i:i+32]) {
			k := concLE(o[i : i+32])
			switch {
			case e.kind == "scalar" && k.Cmp(ffQ) >= 0:
				return false
			case e.kind == "scalar":
				consts = append(consts, cst{e, p.al.Const(k)})
				i += 31
				continue
			case e.kind == "ristretto" && k.Sign() == 0:
				consts = append(consts, cst{e, p.al.zero})
				i += 31
				continue
			}
		}
		c = p.pool.And(c, p.pool.Eq(p.term(a[i], 8), p.term(b[i], 8)))
		if c.isFalse() {
			return false
		}
	}
	if !p.Decide(c) {
		return false
	}
	for _, k := range consts {
		if !p.eqFF(k.e.l, k.l) {
			return false
		}
		p.Constrain(p.pool.Eq(p.concatLE(k.e.b), p.concatLE(p.encode(k.e.kind, k.l, uint64(0)))))
	}
	for _, k := range blks {
		if k.x.kind != "edwards" {
			if !p.eqFF(k.x.l, k.y.l) {
				if debugOn {
					p.lastNeq = fmt.Sprintf("%s vs %s", p.al.String(k.x.l), p.al.String(k.y.l))
				}
				return false
			}
		} else {
			if !p.eqFF(k.x.l, k.y.l) {
				return false
			}
			if !p.Decide(p.pool.Eq(p.term(k.x.tau, 3), p.term(k.y.tau, 3))) {
				return false
			}
		}
	}
	return true
}

func leConst(k *big.Int, n int) []Value {
	out := make([]Value, n)
	x := new(big.Int).Set(k)
	m := big.NewInt(255)
	for i := range out {
		out[i] = new(big.Int).And(x, m).Uint64()
		x.Rsh(x, 8)
	}
	return out
}

// concatLE builds the little-endian integer term of byte values.
func (p *Path) concatLE(b []Value) *Term {
	t := p.term(b[0], 8)
	for _, x := range b[1:] {
		t = p.pool.Concat(p.term(x, 8), t)
	}
	return t
}

func (p *Path) allConcrete(b []Value) bool {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return false
		}
	}
	return true
}

func concLE(b []Value) *big.Int {
	k := new(big.Int)
	for i := len(b) - 1; i >= 0; i-- {
		k.Lsh(k, 8)
		k.Or(k, bigU(b[i].(uint64)))
	}
	return k
}

// encode returns the 32 bytes standing for a scalar or group element.
func (p *Path) encode(kind string, l *FF, tau Value) []Value {
	if kind == "scalar" {
		if r, ok := p.al.Rat(l); ok && len(r.den) == 0 && r.num.isConst() {
			return leConst(r.num.constVal(), 32)
		}
		// small integer values keep their bit pattern
		if l.op == fVar && l.v.kind == VBV && l.v.bv.w <= 240 {
			t := p.pool.Zext(l.v.bv, 256)
			out := make([]Value, 32)
			for i := range out {
				out[i] = fromTerm(p.pool.Extract(t, 8*i+7, 8*i))
			}
			return out
		}
	}
	if kind == "ristretto" {
		if p.identFF(l, p.al.zero) {
			return leConst(new(big.Int), 32)
		}
		tau = uint64(0)
	}
	if kind == "edwards" && p.identFF(l, p.al.zero) {
		if t, ok := tau.(uint64); ok && t == 0 {
			return leConst(big.NewInt(1), 32)
		}
	}
	for _, e := range p.encs {
		if e.kind == kind && p.identFF(e.l, l) && p.tauIdent(e.tau, tau) {
			return e.b
		}
	}
	v := p.fresh("enc_"+kind, 256)
	e := &encEntry{kind: kind, l: l, tau: tau, v: v}
	for i := 0; i < 32; i++ {
		e.b = append(e.b, p.pool.Extract(v, 8*i+7, 8*i))
	}
	p.addEnc(e)
	switch kind {
	case "scalar":
		p.Constrain(p.pool.Cmp(OUlt, v, p.pool.BigConst(256, ffQ)))
	case "ristretto":
		p.Constrain(p.pool.Eq(p.pool.Extract(v, 0, 0), p.pool.Const(1, 0)))
		p.Constrain(p.pool.Cmp(OUlt, v, p.pool.BigConst(256, fpP)))
	case "edwards":
		p.Constrain(p.pool.Cmp(OUlt, p.pool.Extract(v, 254, 0), p.pool.BigConst(255, fpP)))
	}
	return e.b
}

var fpP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

func (p *Path) addEnc(e *encEntry) {
	p.encs = append(p.encs, e)
	if e.v != nil {
		p.scByVar[e.v] = e
	}
}

func (p *Path) tauIdent(a, b Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	return ok1 && ok2 && x == y
}

func (p *Path) tauOp(f func(x, y *Term) *Term, a, b Value) Value {
	return fromTerm(f(p.term(a, 3), p.term(b, 3)))
}

func (p *Path) tauAdd(a, b Value) Value {
	return p.tauOp(func(x, y *Term) *Term { return p.pool.Bin(OAdd, x, y) }, a, b)
}
func (p *Path) tauSub(a, b Value) Value {
	return p.tauOp(func(x, y *Term) *Term { return p.pool.Bin(OSub, x, y) }, a, b)
}
func (p *Path) tauMul(a, b Value) Value {
	if x, ok := a.(uint64); ok && x == 0 {
		return a
	}
	if x, ok := b.(uint64); ok && x == 0 {
		return b
	}
	return p.tauOp(func(x, y *Term) *Term { return p.pool.Bin(OMul, x, y) }, a, b)
}

// low3of is the canonical integer value of a scalar modulo 8.
func (p *Path) low3of(f *FF) Value {
	if r, ok := p.al.Rat(f); ok {
		if len(r.den) == 0 && r.num.isConst() {
			return new(big.Int).And(r.num.constVal(), big.NewInt(7)).Uint64()
		}
	}
	if f.op == fVar && f.v.kind == VBV {
		return fromTerm(p.pool.Extract(p.pool.Zext(f.v.bv, 256), 2, 0))
	}
	b := p.encode("scalar", f, uint64(0))
	return fromTerm(p.pool.Extract(p.term(b[0], 8), 2, 0))
}

func (p *Path) logf(format string, a ...any) {
	if len(p.trace) < 400 {
		p.trace = append(p.trace, fmt.Sprintf(format, a...))
	}
}

// ---- value helpers ----

func (p *Path) sliceBytes(v Value) []Value {
	switch s := v.(type) {
	case Slice:
		if s.a == nil {
			return nil
		}
		if p.races != nil && s.len > 0 {
			p.races.access(p, ElemPtr{s.a, s.off}, false)
			if s.len > 1 {
				p.races.access(p, ElemPtr{s.a, s.off + s.len - 1}, false)
			}
		}
		return s.a.e[s.off : s.off+s.len]
	case string:
		out := make([]Value, len(s))
		for i := range out {
			out[i] = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	case *Array:
		return s.e
	}
	panic(fmt.Sprintf("sliceBytes %T", v))
}

func (p *Path) newBytes(b []Value) Slice {
	a := &Array{elem: types.Typ[types.Uint8], e: append([]Value{}, b...), id: p.newID()}
	return Slice{a: a, len: len(b), cap: len(b)}
}

func strVal(b []Value) Value {
	out := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(uint64)
		if !ok {
			return &SymStr{append([]Value{}, b...)}
		}
		out[i] = byte(c)
	}
	return string(out)
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func (p *Path) runtimePanic(msg string) {
	panic(&GoPanic{v: &Iface{t: p.eng.rtErr, v: "runtime error: " + msg}, rt: true, stack: p.stackStr()})
}

func (p *Path) userPanic(msg string) {
	panic(&GoPanic{v: &Iface{t: types.Typ[types.String], v: msg}, stack: p.stackStr()})
}

func (p *Path) stackStr() string {
	var s []string
	for i := len(p.curFn) - 1; i >= 0 && len(s) < 8; i-- {
		s = append(s, p.curFn[i].String())
	}
	return strings.Join(s, " < ")
}

var debugOn = os.Getenv("GOSYM_DEBUG") != ""
