package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// RaceRec records one observed execution: memory accesses and synchronisation.
// Afterwards the solver is asked, for every pair of conflicting accesses,
// whether some reordering of these events that respects program order, the
// recorded synchronisation and mutual exclusion makes them concurrent.
type RaceRec struct {
	ev     []raceEv
	edges  [][2]int // observed ordering a -> b
	atomic int
	last   map[*G]int
	cs     []critSec
	open   map[*lockV]map[*G]int
	atomL  map[any]int
	names  map[any]string
}

type raceEv struct {
	g    *G
	kind byte // 'r','w','s' (sync)
	loc  any
	pos  string
}

type critSec struct {
	l        *lockV
	acq, rel int
	shared   bool
}

func newRaceRec(p *Path) *RaceRec {
	return &RaceRec{last: map[*G]int{}, open: map[*lockV]map[*G]int{}, atomL: map[any]int{}}
}

func (r *RaceRec) add(p *Path, kind byte, loc any) int {
	pos := ""
	var top *ssa.Function
	for i := len(p.curFn) - 1; i >= 0; i-- {
		top = p.curFn[i]
		if top.Pkg != nil && strings.HasPrefix(top.Pkg.Pkg.Path(), "github.com/taurusgroup") {
			break
		}
	}
	if top != nil {
		pos = top.String()
	}
	r.ev = append(r.ev, raceEv{g: p.cur, kind: kind, loc: loc, pos: pos})
	return len(r.ev) - 1
}

func (r *RaceRec) access(p *Path, ptr Value, write bool) {
	if r.atomic > 0 {
		return
	}
	k := byte('r')
	if write {
		k = 'w'
	}
	switch x := ptr.(type) {
	case nil:
		return
	case *Struct:
		m := aggMask(x.typ)
		for i := range x.f {
			if m[i] {
				r.access(p, x.f[i], write)
			} else {
				r.add(p, k, FieldPtr{x, i})
			}
		}
		return
	case *Array:
		r.add(p, k, x)
		return
	case ElemPtr:
		r.add(p, k, x)
		return
	case Slice, string:
		return
	}
	r.add(p, k, ptr)
}

func (r *RaceRec) fork(parent, child *G) {
	r.ev = append(r.ev, raceEv{g: parent, kind: 's'})
	a := len(r.ev) - 1
	r.ev = append(r.ev, raceEv{g: child, kind: 's'})
	r.edges = append(r.edges, [2]int{a, a + 1})
}

// forkFrom: the goroutine of a timer starts after the timer was armed.
func (r *RaceRec) forkFrom(ev int, child *G) {
	r.ev = append(r.ev, raceEv{g: child, kind: 's'})
	r.edges = append(r.edges, [2]int{ev, len(r.ev) - 1})
}

func (r *RaceRec) release(p *Path, c *Chan) {
	e := r.add(p, 's', nil)
	c.clk = c.clk.join(VC{e: 1})
}

func (r *RaceRec) acquire(p *Path, c *Chan) {
	e := r.add(p, 's', nil)
	for x := range c.clk {
		r.edges = append(r.edges, [2]int{x, e})
	}
}

func (r *RaceRec) acquireClk(p *Path, clk VC) {
	e := r.add(p, 's', nil)
	for x := range clk {
		r.edges = append(r.edges, [2]int{x, e})
	}
}

func (r *RaceRec) releaseClk(p *Path, clk VC) VC {
	e := r.add(p, 's', nil)
	return clk.join(VC{e: 1})
}

func (r *RaceRec) lockEv(p *Path, l *lockV, acq bool) {
	e := r.add(p, 's', nil)
	if r.open[l] == nil {
		r.open[l] = map[*G]int{}
	}
	shared := l.readers > 0 || !acq && !l.held && len(r.open[l]) > 1
	if acq {
		r.open[l][p.cur] = e
		return
	}
	a, ok := r.open[l][p.cur]
	if !ok {
		// unlocked by another goroutine than the one that locked
		for g, x := range r.open[l] {
			a, ok = x, true
			r.edges = append(r.edges, [2]int{x, e})
			delete(r.open[l], g)
			break
		}
	}
	delete(r.open[l], p.cur)
	if ok {
		r.cs = append(r.cs, critSec{l, a, e, shared})
	}
}

func (r *RaceRec) atomicEv(p *Path, ptr Value, w bool) {
	e := r.add(p, 's', nil)
	if x, ok := r.atomL[ptr]; ok {
		r.edges = append(r.edges, [2]int{x, e})
	}
	r.atomL[ptr] = e
}

// analyse queries the solver for feasible races; returns descriptions.
func (r *RaceRec) analyse(p *Path) (found []string, queries int) {
	eng := p.eng
	byLoc := map[any][]int{}
	order := []any{}
	for i, e := range r.ev {
		if e.kind == 'r' || e.kind == 'w' {
			loc := e.loc
			if byLoc[loc] == nil {
				order = append(order, loc)
			}
			byLoc[loc] = append(byLoc[loc], i)
		}
	}
	// program order, observed synchronisation, locks; only synchronisation
	// events are ordered, an access lies somewhere between the ones around it
	var sb strings.Builder
	type pair struct{ a, b int }
	var pairs []pair
	seen := map[[2]int]bool{}
	num := map[int]int{}           // synchronisation event -> number
	prev := make([]int, len(r.ev)) // the one before an access in its goroutine
	follow := make([]int, len(r.ev))
	lastOf := map[*G]int{}
	for i, e := range r.ev {
		l, ok := lastOf[e.g]
		if !ok {
			l = -1
		}
		prev[i] = l
		if e.kind != 's' {
			continue
		}
		num[i] = len(num)
		fmt.Fprintf(&sb, "(declare-const e%d Int)\n", num[i])
		if ok {
			fmt.Fprintf(&sb, "(assert (< e%d e%d))\n", num[l], num[i])
		}
		lastOf[e.g] = i
	}
	nextOf := map[*G]int{}
	for i := len(r.ev) - 1; i >= 0; i-- {
		e := r.ev[i]
		if n, ok := nextOf[e.g]; ok {
			follow[i] = n
		} else {
			follow[i] = -1
		}
		if e.kind == 's' {
			nextOf[e.g] = i
		}
	}
	gn := map[*G]int{}
	seg := func(i int) int { // unique per goroutine and position
		if prev[i] >= 0 {
			return prev[i]
		}
		g := r.ev[i].g
		if _, ok := gn[g]; !ok {
			gn[g] = -2 - len(gn)
		}
		return gn[g]
	}
	for _, loc := range order {
		ev := byLoc[loc]
		for x := 0; x < len(ev); x++ {
			for y := x + 1; y < len(ev); y++ {
				a, b := r.ev[ev[x]], r.ev[ev[y]]
				if a.g == b.g || a.kind == 'r' && b.kind == 'r' {
					continue
				}
				// whether two accesses can coincide depends on their segments only
				k := [2]int{seg(ev[x]), seg(ev[y])}
				if k[0] > k[1] {
					k[0], k[1] = k[1], k[0]
				}
				if seen[k] {
					continue
				}
				seen[k] = true
				pairs = append(pairs, pair{ev[x], ev[y]})
			}
		}
	}
	if len(pairs) == 0 {
		return
	}
	coincide := func(pr pair) string {
		c := "(and true"
		if x, y := prev[pr.a], follow[pr.b]; x >= 0 && y >= 0 {
			c += fmt.Sprintf(" (< e%d e%d)", num[x], num[y])
		}
		if x, y := prev[pr.b], follow[pr.a]; x >= 0 && y >= 0 {
			c += fmt.Sprintf(" (< e%d e%d)", num[x], num[y])
		}
		return c + ")"
	}
	for _, ed := range r.edges {
		fmt.Fprintf(&sb, "(assert (< e%d e%d))\n", num[ed[0]], num[ed[1]])
	}
	touched := make([]map[any]bool, len(r.cs)) // location -> written
	for i, c := range r.cs {
		touched[i] = map[any]bool{}
		for k := c.acq; k < c.rel; k++ {
			if e := r.ev[k]; e.g == r.ev[c.acq].g && e.kind != 's' {
				touched[i][e.loc] = touched[i][e.loc] || e.kind == 'w'
			}
		}
	}
	conflict := func(i, j int) bool {
		for l, w := range touched[i] {
			if w2, ok := touched[j][l]; ok && (w || w2) {
				return true
			}
		}
		return false
	}
	for i, c := range r.cs {
		for j, d := range r.cs[i+1:] {
			if c.l != d.l || c.shared && d.shared || r.ev[c.acq].g == r.ev[d.acq].g {
				continue
			}
			if conflict(i, i+1+j) {
				// one saw the other's writes: their order is kept
				if c.acq < d.acq {
					fmt.Fprintf(&sb, "(assert (< e%d e%d))\n", num[c.rel], num[d.acq])
				} else {
					fmt.Fprintf(&sb, "(assert (< e%d e%d))\n", num[d.rel], num[c.acq])
				}
				continue
			}
			fmt.Fprintf(&sb, "(assert (or (< e%d e%d) (< e%d e%d)))\n", num[c.rel], num[d.acq], num[d.rel], num[c.acq])
		}
	}
	// all pairs at once; one by one only if some race is possible
	var or strings.Builder
	dis := map[string]bool{}
	for _, pr := range pairs {
		if c := coincide(pr); !dis[c] {
			dis[c] = true
			or.WriteString(" " + c)
		}
	}
	all := "(assert (or false" + or.String() + "))\n"
	key := sha256.Sum256([]byte(sb.String() + all))
	eng.mu.Lock()
	clean := eng.raceOK[key]
	eng.mu.Unlock()
	if clean {
		return
	}
	s := p.w.raceSolver()
	defer s.send("(pop)\n")
	s.send("(push)\n")
	t0 := time.Now()
	defer func() { atomic.AddInt64(&eng.st.SolverNS, int64(time.Since(t0))) }()
	ask := func(q string) string {
		queries++
		s.send("(push)\n" + q + "(check-sat)\n(pop)\n")
		s.in.Flush()
		l := s.line()
		eng.countQuery(l)
		return l
	}
	if os.Getenv("GOSYM_DUMPRACE") != "" {
		os.WriteFile(os.Getenv("GOSYM_DUMPRACE"), []byte(sb.String()+all+"(check-sat)\n"), 0o644)
	}
	s.send(sb.String())
	if ask(all) == "unsat" {
		eng.mu.Lock()
		eng.raceOK[key] = true
		eng.mu.Unlock()
		return
	}
	for _, pr := range pairs {
		if ask("(assert "+coincide(pr)+")\n") == "sat" {
			a, b := r.ev[pr.a], r.ev[pr.b]
			found = append(found, fmt.Sprintf("%s (%c) races with %s (%c)", a.pos, a.kind, b.pos, b.kind))
			if len(found) >= 6 {
				break
			}
		}
	}
	return
}

// raceSolver is the worker's solver for orders of events.
func (w *Worker) raceSolver() *Solver {
	if w.rsol == nil || w.rsolN > 300 {
		if w.rsol != nil {
			w.rsol.Close()
		}
		w.rsol, w.rsolN = NewSolver(w.eng.z3, w.eng.st), 0
	}
	w.rsolN++
	return w.rsol
}
