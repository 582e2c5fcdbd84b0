package main

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	lensOnce sync.Once
	lens     []int
	cntsOnce sync.Once
	cnts     []int

	prog *ssa.Program
	fset *token.FileSet
	tier int
	seed int64
	z3   string
	st   *Stats
	repo string
	id   string

	rtErr, errT, scalarT, pointT, fieldT, elemT, timerT, timeTime, fileT types.Type

	mu      sync.Mutex
	cond    *sync.Cond
	work    map[*ssa.Function][]*workItem
	order   []*ssa.Function
	started map[*ssa.Function]int
	active  int
	stopped bool

	funcs    map[*ssa.Function]bool
	notes    map[string]int
	viols    map[string][]*Violation
	covers   map[string]int
	needCov  map[string]bool
	aborts   map[abortKind]int
	unsup    map[string]int
	unkA     map[string]int
	asserts  map[string]int
	paths    int
	done     int
	steps    int64
	branch   int64
	pending  int
	samples  []*pathSample
	perFn    map[string]int
	raceQ    int
	feTab    map[uint64]map[string]uint64
	racy     map[*ssa.Function]int // runs with possible races
	raceOK   map[[32]byte]bool
	raceAll  map[string]bool
	unproven map[string]int

	maxPaths int
	maxSteps int
	stepsN   int
	deadline time.Time

	idMu   sync.Mutex
	idSeen map[[32]byte]bool
	idQ    chan string
	idWG   sync.WaitGroup
	idBad  []string
	idMax  int
	idN    int
}

type pathSample struct {
	Fn     string
	Data   map[string]any
	Covers []string
	Desc   string
	Native string
	Conv   bool
	AnyCov bool // native map order differs: cover points may too
}

type Worker struct {
	eng  *Engine
	sol  *Solver
	item *workItem

	rsol  *Solver
	rsolN int
}

func goEnv(mod string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOSUMDB", "GOTOOLCHAIN", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod="+mod, "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

// overlayFiles maps virtual paths in the repository to harness files.
func overlayFiles(repo, verif, id string) (map[string]string, error) {
	out := map[string]string{}
	add := func(dir, virt string) error {
		fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil || len(fs) == 0 {
			return fmt.Errorf("no harness files in %s", dir)
		}
		for _, f := range fs {
			out[filepath.Join(repo, virt, filepath.Base(f))] = f
		}
		return nil
	}
	if err := add(filepath.Join(verif, "harness/vsym"), "pkg/internal/vsym"); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verif, "harness/lib"), "pkg/internal/verifh/lib"); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verif, "harness", strings.ToLower(id)), "pkg/internal/verifh/"+strings.ToLower(id)); err != nil {
		return nil, err
	}
	// the commands, if the harness wants them
	if _, err := os.Stat(filepath.Join(verif, "harness", strings.ToLower(id), "TOOLS")); err == nil {
		if err := toolFiles(repo, toolDir(), out); err != nil {
			return nil, err
		}
	}
	// files that go into packages of the repository
	in := filepath.Join(verif, "harness", strings.ToLower(id), "in")
	err := filepath.WalkDir(in, func(f string, d os.DirEntry, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		if strings.HasSuffix(f, ".go") {
			rel, _ := filepath.Rel(in, f)
			out[filepath.Join(repo, rel)] = f
		}
		return nil
	})
	return out, err
}

func (e *Engine) load(repo, verif, id string) ([]*ssa.Function, error) {
	files, err := overlayFiles(repo, verif, id)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for virt, real := range files {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		ov[virt] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv("readonly")}
	pk, err := packages.Load(cfg, "./pkg/internal/verifh/"+strings.ToLower(id), "runtime", "errors", "time")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	e.prog, e.fset = prog, prog.Fset
	look := func(path, name string) types.Type {
		p := prog.ImportedPackage(path)
		if p == nil {
			return nil
		}
		if o := p.Type(name); o != nil {
			return o.Type()
		}
		return nil
	}
	e.rtErr = look("runtime", "errorString")
	e.errT = types.NewPointer(look("errors", "errorString"))
	e.scalarT = look(edPkg, "Scalar")
	e.pointT = look(edPkg, "Point")
	e.fieldT = look(edPkg+"/field", "Element")
	e.elemT = look(repoP+"pkg/ristretto", "Element")
	e.timerT = look("time", "Timer")
	e.timeTime = look("time", "Time")
	e.fileT = look("os", "File")
	var fns []*ssa.Function
	var hp *ssa.Package
	for _, p := range pkgs {
		if p != nil && strings.HasSuffix(p.Pkg.Path(), "/verifh/"+strings.ToLower(id)) {
			hp = p
		}
	}
	if hp == nil {
		return nil, fmt.Errorf("harness package not loaded")
	}
	for _, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "Check") {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	if len(fns) == 0 {
		return nil, fmt.Errorf("no Check functions for %s", id)
	}
	// every Cover label in the harness must be reached
	for _, f := range fns {
		e.scanCovers(f, map[*ssa.Function]bool{})
	}
	return fns, nil
}

func (e *Engine) scanCovers(f *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[f] || f.Blocks == nil {
		return
	}
	seen[f] = true
	for _, a := range f.AnonFuncs {
		e.scanCovers(a, seen)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil {
				continue
			}
			if g.String() == vsymP+"Cover" {
				if k, ok := c.Call.Args[0].(*ssa.Const); ok {
					e.needCov[strings.Trim(k.Value.ExactString(), "\"")] = true
				}
				continue
			}
			if g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "/verifh/") {
				e.scanCovers(g, seen)
			}
		}
	}
}

var intrCache sync.Map

func (e *Engine) intrinsic(fn *ssa.Function) intrinsicFn {
	if v, ok := intrCache.Load(fn); ok {
		f, _ := v.(intrinsicFn)
		return f
	}
	f := table[fn.String()]
	if f == nil && fn.Origin() != nil {
		f = table[fn.Origin().String()]
	}
	intrCache.Store(fn, f)
	return f
}

var encCache sync.Map

func (e *Engine) encoded(fn *ssa.Function) {
	if _, ok := encCache.LoadOrStore(fn, true); ok {
		return
	}
	e.mu.Lock()
	e.funcs[fn] = true
	e.mu.Unlock()
}

func (e *Engine) wantInit(path string) bool {
	if path == repoP+"pkg/ristretto" {
		return true
	}
	if strings.HasPrefix(path, strings.TrimSuffix(repoP, "/")) {
		return !strings.HasSuffix(path, "/internal/vsym")
	}
	switch path {
	case "io", "encoding", "encoding/binary", "encoding/hex", "bytes", "sort", "slices", "strings", "context", "math/bits":
		return true
	}
	return false
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func (e *Engine) unknownAsserts(l string) {
	e.mu.Lock()
	e.unkA[l]++
	e.mu.Unlock()
}

func (e *Engine) countQuery(l string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.st.Queries++
	switch l {
	case "sat":
		e.st.SatN++
	case "unsat":
		e.st.UnsatN++
	default:
		e.st.UnknownN++
	}
}

func (e *Engine) push(it *workItem) {
	e.mu.Lock()
	e.work[it.fn] = append(e.work[it.fn], it)
	e.pending++
	e.cond.Signal()
	e.mu.Unlock()
}

// take picks the harness with the fewest paths run so far.
func (e *Engine) take() *workItem {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if time.Now().After(e.deadline) || e.stopped {
			e.stopped = true
			e.cond.Broadcast()
			return nil
		}
		var best *ssa.Function
		for _, f := range e.order {
			if len(e.work[f]) == 0 || e.started[f] >= e.maxPaths {
				continue
			}
			if best == nil || e.started[f] < e.started[best] {
				best = f
			}
		}
		if best != nil {
			l := e.work[best]
			it := l[len(l)-1]
			e.work[best] = l[:len(l)-1]
			e.pending--
			e.started[best]++
			e.active++
			return it
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) finish() {
	e.mu.Lock()
	e.active--
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *Engine) explore(fns []*ssa.Function, workers int) {
	e.order = fns
	for _, f := range fns {
		e.push(&workItem{fn: f, model: map[string]*big.Int{}})
	}
	e.startIdent()
	// wake waiting workers when the time is up
	tm := time.AfterFunc(time.Until(e.deadline), func() { e.mu.Lock(); e.cond.Broadcast(); e.mu.Unlock() })
	defer tm.Stop()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{eng: e, sol: NewSolver(e.z3, e.st)}
			defer w.sol.Close()
			defer func() {
				if w.rsol != nil {
					w.rsol.Close()
				}
			}()
			for {
				it := e.take()
				if it == nil {
					return
				}
				w.item = it
				w.runPath(it)
				e.finish()
			}
		}()
	}
	wg.Wait()
	close(e.idQ)
	e.idWG.Wait()
}

// ---- field identities discharged by the solver ----

func (e *Engine) startIdent() {
	e.idQ = make(chan string, 100000)
	for i := 0; i < 4; i++ {
		e.idWG.Add(1)
		go func() {
			defer e.idWG.Done()
			for sc := range e.idQ {
				e.idMu.Lock()
				over := e.idN >= e.idMax || time.Now().After(e.deadline.Add(20*time.Second))
				e.idN++
				e.idMu.Unlock()
				if over {
					continue
				}
				r := e.identScript(sc, 10*time.Second)
				if r == "sat" {
					e.idMu.Lock()
					e.idBad = append(e.idBad, sc)
					e.idMu.Unlock()
				}
			}
		}()
	}
}

func (e *Engine) identScript(sc string, to time.Duration) string {
	t0 := time.Now()
	r := OneShot("z3-new", sc+"(check-sat)\n", to)
	e.idMu.Lock()
	e.st.IdentQ++
	switch r {
	case "unsat":
		e.st.IdentOK++
	case "sat":
	default:
		e.st.IdentUnk++
	}
	e.st.IdentNS += int64(time.Since(t0))
	e.idMu.Unlock()
	return r
}

// noteIdentity: a field equality the run relied on; discharged once per distinct script.
func (e *Engine) noteIdentity(p *Path, f *FF) {
	e.idMu.Lock()
	e.st.NormIdent++
	full := e.idN > e.idMax || len(e.idSeen) > e.idMax
	e.idMu.Unlock()
	if full {
		return
	}
	sc, ok := p.al.SMTIdentity(f, 4000)
	if !ok {
		return
	}
	h := sha256.Sum256([]byte(sc))
	e.idMu.Lock()
	dup := e.idSeen[h]
	e.idSeen[h] = true
	e.idMu.Unlock()
	if !dup {
		select {
		case e.idQ <- sc:
		default:
		}
	}
}

func (e *Engine) confirmIdentity(p *Path, f *FF) bool {
	sc, ok := p.al.SMTIdentity(f, 20000)
	if !ok {
		return false
	}
	return e.identScript(sc, 60*time.Second) == "unsat"
}

// ---- one path ----

func (w *Worker) runPath(it *workItem) {
	e := w.eng
	w.sol.Begin()
	pool := NewPool()
	p := &Path{eng: e, w: w, fn: it.fn, pool: pool, al: NewAlgebra(), sol: w.sol,
		prefix: it.prefix, now: uint64(0), maxSteps: e.maxSteps, globals: map[*ssa.Global]Value{}, initDone: map[*ssa.Package]bool{},
		nameN: map[string]int{}, scByVar: map[*Term]*encEntry{}, covers: map[string]bool{}, low3: map[string]*Term{},
		freshN: map[string]int{}, fcache: map[fkey][2]*Term{}, killAck: make(chan struct{}), asserts: map[string]int{}}
	if len(it.prefix) == 0 {
		p.model = it.model
	}
	g := &G{id: 0, resume: make(chan struct{})}
	p.gs = []*G{g}
	p.cur = g
	var ab *pathAbort
	var gp *GoPanic
	var internal string
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch v := x.(type) {
				case *pathAbort:
					ab = v
				case *GoPanic:
					gp = v
				case string:
					internal = v
					if !strings.Contains(v, "goroutine") {
						internal += "\n" + string(debug.Stack())
					}
				default:
					internal = fmt.Sprintf("%v\n%s", x, debug.Stack())
				}
			}
		}()
		p.callFn(it.fn, nil, nil)
	}()
	func() {
		defer func() {
			if x := recover(); x != nil {
				if a, ok := x.(*pathAbort); ok {
					ab = a
				} else {
					internal = fmt.Sprintf("%v\n%s", x, debug.Stack())
				}
			}
		}()
		if gp != nil {
			p.logf("panic: %s at %s", gp.text(p), gp.stack)
			p.violation("panic", "uncaught panic: "+gp.text(p)+" in "+gp.stack)
		}
		if ab != nil && ab.kind == abDeadlock {
			p.violation("deadlock", ab.msg)
		}
		if ab != nil && ab.kind == abSteps {
			e.mu.Lock()
			e.stepsN++
			few := e.stepsN <= 4
			e.mu.Unlock()
			if few {
				p.violation("no-termination", "does not end within the step limit; natively not within 20 s")
			}
		}
		if ab == nil && gp == nil && internal == "" && p.races != nil {
			e.mu.Lock()
			enough := e.racy[it.fn] >= 24
			e.mu.Unlock()
			var found []string
			q := 0
			if !enough {
				found, q = p.races.analyse(p)
			}
			e.mu.Lock()
			e.raceQ += q
			if len(found) > 0 {
				e.racy[it.fn]++
			}
			for _, f := range found {
				e.raceAll[f] = true
			}
			e.mu.Unlock()
			for _, f := range found {
				p.violation("race", f)
			}
		}
		if ab == nil && gp == nil && internal == "" && len(p.violations) == 0 {
			p.ensureModel()
		}
	}()
	p.killAll()
	var sample *pathSample
	if ab == nil && gp == nil && internal == "" && len(p.violations) == 0 && !p.uncertain {
		e.mu.Lock()
		want := e.perFn[it.fn.Name()] < 6 || e.paths%97 == 0 && len(e.samples) < 400
		e.mu.Unlock()
		if want {
			sample = &pathSample{Fn: it.fn.Name(), Data: p.replayData(e.seed, ""), Covers: append([]string{}, p.coverSeq...)}
			sample.Desc = strings.Join(p.trace, "; ")
			sample.Conv = p.preempt == 0 && !p.generic
			sample.AnyCov = p.mapPerm != 0 || p.preempted || p.fc != nil
		}
	}
	w.sol.End()

	e.mu.Lock()
	defer e.mu.Unlock()
	e.paths++
	e.steps += int64(p.steps)
	for _, d := range p.taken {
		if !d.F {
			e.branch++
		}
	}
	k := abDone
	if ab != nil {
		k = ab.kind
	}
	if internal != "" {
		e.unsup["internal: "+firstLines(internal, 14)]++
		k = abUnsupported
	} else if ab != nil && ab.kind == abUnsupported {
		e.unsup[ab.msg]++
	} else if ab != nil && ab.kind == abSteps {
		e.unsup[ab.msg]++
	}
	e.aborts[k]++
	if k == abDone || k == abViolationEnd {
		for c := range p.covers {
			e.covers[c]++
		}
		for l, n := range p.asserts {
			e.asserts[l] += n
		}
	}
	if k == abDone && gp == nil {
		e.done++
		e.perFn[it.fn.Name()]++
	}
	if p.uncertain {
		e.notes["paths kept with an unsolved field equation"]++
	}
	if sample != nil {
		e.samples = append(e.samples, sample)
	}
	// recorded violations have a model, even if nothing satisfies the path
	// once the assertion is taken to hold
	for _, v := range p.violations {
		key := it.fn.Name() + "/" + v.Label
		if v.Label == "panic" || v.Label == "race" {
			key += "/" + v.Msg
		}
		if len(e.viols[key]) < 12 {
			e.viols[key] = append(e.viols[key], v)
		}
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
