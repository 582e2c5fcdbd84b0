package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newEngine(id, tier string, seed int64) *Engine {
	e := &Engine{id: id, seed: seed, repo: "/repo", z3: "z3", st: &Stats{},
		work: map[*ssa.Function][]*workItem{}, started: map[*ssa.Function]int{},
		funcs: map[*ssa.Function]bool{}, notes: map[string]int{}, viols: map[string][]*Violation{},
		covers: map[string]int{}, needCov: map[string]bool{}, aborts: map[abortKind]int{}, unsup: map[string]int{},
		unkA: map[string]int{}, asserts: map[string]int{}, perFn: map[string]int{}, raceAll: map[string]bool{}, racy: map[*ssa.Function]int{}, raceOK: map[[32]byte]bool{},
		unproven: map[string]int{}, idSeen: map[[32]byte]bool{},
		maxPaths: 20000, maxSteps: 20_000_000, idMax: 1500}
	e.cond = sync.NewCond(&e.mu)
	if v := os.Getenv("GOSYM_REPO"); v != "" {
		e.repo = v
	}
	budget := 200 * time.Second
	e.st.Retry = 40 * time.Second
	if tier == "thorough" {
		e.tier = 1
		e.maxPaths = 2000000
		e.maxSteps = 200_000_000
		e.idMax = 30000
		budget = 45 * time.Minute
		e.st.Retry = 400 * time.Second
	}
	if v := os.Getenv("GOSYM_BUDGET"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	e.deadline = time.Now().Add(budget)
	e.st.Deadline = e.deadline
	return e
}

func (e *Engine) harnessConst(fns []*ssa.Function, name string) string {
	if c := fns[0].Pkg.Const(name); c != nil {
		return constant.StringVal(c.Value.Value)
	}
	return ""
}

type known struct {
	prop, label, fn, text string
	hit                   bool
}

func lists(kn []*known, v *Violation) bool {
	for _, k := range kn {
		if k.label == v.Label && k.fn == v.Fn {
			return true
		}
	}
	return false
}

// readKnown parses lines "KNOWN-FINDING: property=<id> label=<l> fn=<f> <text>".
func readKnown(verif, id string) []*known {
	raw, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	var out []*known
	for _, l := range strings.Split(string(raw), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING: ") {
			continue
		}
		k := &known{}
		var rest []string
		for _, w := range strings.Fields(strings.TrimPrefix(l, "KNOWN-FINDING: ")) {
			switch {
			case strings.HasPrefix(w, "property="):
				k.prop = w[9:]
			case strings.HasPrefix(w, "label="):
				k.label = w[6:]
			case strings.HasPrefix(w, "fn="):
				k.fn = w[3:]
			default:
				rest = append(rest, w)
			}
		}
		k.text = strings.Join(rest, " ")
		if k.prop == id && k.label != "" && k.fn != "" {
			out = append(out, k)
		}
	}
	return out
}

func (e *Engine) confirm(n *Native, v *Violation) bool {
	race := v.Label == "race"
	mode := ""
	if race {
		mode = "race"
	}
	to := 60 * time.Second
	if v.Label == "deadlock" {
		to = 15 * time.Second
	}
	reps := 3
	if v.Label == "no-termination" {
		to = 20 * time.Second
		reps = 1
	}
	if race {
		reps = 6
	}
	for _, d := range v.Repl {
		for i := 0; i < reps; i++ {
			r, err := n.run(d, mode, to)
			if err != nil {
				v.Detail = err.Error()
				return false
			}
			if reproduces(r, v.Label) {
				v.Detail = tail(r.out, 3000)
				v.Repl = []map[string]any{d}
				return true
			}
			if v.Detail == "" {
				v.Detail = fmt.Sprintf("native run ended with code %d: %s", r.code, tail(r.out, 600))
			}
			if r.code == 0 && i == 0 && !race && !strings.Contains(v.Fn, "Order") {
				// deterministic harness: one more try only
				reps = 2
			}
		}
		if d["conc"] == true && n.hunting > 0 {
			t0 := time.Now()
			r := n.hunt(d, mode, v.Label, min(30*time.Second, n.hunting))
			n.hunting -= time.Since(t0)
			if r != nil {
				v.Detail = tail(r.out, 3000)
				v.Repl = []map[string]any{d}
				return true
			}
		}
	}
	return false
}

// hunt repeats a run with random delays at the locks until the violation
// shows.
func (n *Native) hunt(d map[string]any, mode, label string, limit time.Duration) *runRes {
	end := time.Now().Add(limit)
	var found *runRes
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				next++
				k := next
				stop := found != nil || k > 2000 || time.Now().After(end)
				mu.Unlock()
				if stop {
					return
				}
				r, err := n.run(d, "delay"+mode, 10*time.Second, fmt.Sprintf("VSYM_DELAY=%d", k))
				if err != nil {
					return
				}
				if reproduces(r, label) {
					mu.Lock()
					found = r
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	return found
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func realMain() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosym <property> <quick|thorough> | gosym -replay <file>")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	verif := os.Getenv("GOSYM_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	if os.Args[1] == "-replay" {
		os.Exit(replayMain(verif, os.Args[2]))
	}
	id, tier := strings.ToUpper(os.Args[1]), os.Args[2]
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	os.Exit(runCheck(verif, id, tier, seed))
}

func replayMain(verif, file string) int {
	defer cleanTools()
	raw, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f struct {
		Property string         `json:"property"`
		Label    string         `json:"label"`
		Data     map[string]any `json:"data"`
	}
	if err := json.Unmarshal(raw, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	e := newEngine(f.Property, "quick", 1)
	fns, err := e.load(e.repo, verif, f.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(dir)
	n := &Native{eng: e, dir: dir, bin: map[string]string{}, verif: verif}
	for _, f := range fns {
		n.fns = append(n.fns, f.Name())
	}
	mode := ""
	if f.Label == "race" {
		mode = "race"
	}
	r, err := n.run(f.Data, mode, 60*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if f.Data["conc"] == true && !reproduces(r, f.Label) {
		if x := n.hunt(f.Data, mode, f.Label, 2*time.Minute); x != nil {
			r = x
		}
	}
	fmt.Println(r.out)
	fmt.Println("exit code", r.code, "reproduces:", reproduces(r, f.Label))
	if reproduces(r, f.Label) {
		return 1
	}
	return 0
}

func sortedCount(m map[string]int, max int) []string {
	var out []string
	for k, n := range m {
		out = append(out, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(out)
	if len(out) > max {
		out = append(out[:max], fmt.Sprintf("... %d more", len(out)-max))
	}
	return out
}

func runCheck(verif, id, tier string, seed int64) int {
	defer cleanTools()
	t0 := time.Now()
	e := newEngine(id, tier, seed)
	fns, err := e.load(e.repo, verif, id)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if only := os.Getenv("GOSYM_ONLY"); only != "" {
		var f2 []*ssa.Function
		for _, f := range fns {
			for _, o := range strings.Split(only, ",") {
				if f.Name() == o {
					f2 = append(f2, f)
				}
			}
		}
		fns = f2
	}
	loadT := time.Since(t0)
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := &Native{eng: e, dir: dir, bin: map[string]string{}, verif: verif}
	for _, f := range fns {
		n.fns = append(n.fns, f.Name())
	}
	// build the replay program while exploring
	bdone := make(chan error, 1)
	go func() { _, err := n.build(""); bdone <- err }()
	workers := 8
	if v := os.Getenv("GOSYM_WORKERS"); v != "" {
		workers, _ = strconv.Atoi(v)
	}
	tx := time.Now()
	e.explore(fns, workers)
	exploreT := time.Since(tx)
	if err := <-bdone; err != nil {
		fmt.Println("ERROR", err)
		return 2
	}

	// confirm candidates against the real code
	var keys []string
	for k := range e.viols {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	kn := readKnown(verif, id)
	n.hunting = 240 * time.Second
	var enough time.Time
	var confirmed []*Violation
	var unconf []string
	byLabel := map[string]bool{}
	for _, k := range keys {
		ok := false
		for i, v := range e.viols[k] {
			if i >= 6 && time.Since(t0) > 500*time.Second {
				break
			}
			if time.Since(t0) > 600*time.Second || !enough.IsZero() && time.Since(enough) > 40*time.Second {
				break
			}
			if byLabel[v.Fn+"/"+v.Label] {
				ok = true
				break
			}
			if e.confirm(n, v) {
				confirmed = append(confirmed, v)
				if !lists(kn, v) {
					n.hunting = 0 // enough shown
					if enough.IsZero() {
						enough = time.Now()
					}
				}
				byLabel[v.Fn+"/"+v.Label] = true
				ok = true
				break
			}
		}
		if !ok {
			v := e.viols[k][0]
			unconf = append(unconf, fmt.Sprintf("%s: %s; %s", k, v.Msg, tail(v.Detail, 500)))
			if debugOn {
				fmt.Println("UNCONFIRMED", k, v.Msg, v.Detail, strings.Join(v.Trace, "; "))
			}
		}
	}

	// replay passing paths natively: the encoding must agree with the real code
	var validated int
	var diverged []string
	maxVal := 40
	if tier == "thorough" {
		maxVal = 300
	}
	var cand []*pathSample
	for _, s := range e.samples {
		if s.Conv {
			cand = append(cand, s)
		}
	}
	sort.SliceStable(cand, func(i, j int) bool { return cand[i].Fn < cand[j].Fn })
	if len(cand) > maxVal {
		step := float64(len(cand)) / float64(maxVal)
		var c2 []*pathSample
		for i := 0; i < maxVal; i++ {
			c2 = append(c2, cand[int(float64(i)*step)])
		}
		cand = c2
	}
	var wg sync.WaitGroup
	var vmu sync.Mutex
	sem := make(chan bool, 8)
	for _, s := range cand {
		s := s
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r, err := n.run(s.Data, "", 60*time.Second)
			vmu.Lock()
			defer vmu.Unlock()
			if err != nil {
				s.Native = err.Error()
				return
			}
			if r.code == 0 && strings.Contains(r.out, "VSYM-OK") {
				seen := map[string]bool{}
				for _, l := range strings.Split(r.out, "\n") {
					if strings.HasPrefix(l, "VSYM-COVER ") {
						seen[l[11:]] = true
					}
				}
				same := true
				for _, c := range s.Covers {
					if !seen[c] {
						same = false
					}
				}
				if s.AnyCov || same && len(seen) == len(s.Covers) {
					s.Native = "agrees"
					validated++
					return
				}
				s.Native = "different cover points"
				diverged = append(diverged, fmt.Sprintf("%s: path covers %v, native %v; %s", s.Fn, s.Covers, seen, s.Desc))
				return
			}
			s.Native = fmt.Sprintf("native code %d", r.code)
			diverged = append(diverged, fmt.Sprintf("%s: native exit %d %s; %s", s.Fn, r.code, tail(r.out, 1500), s.Desc))
			// the real code violates the property on this path's inputs
			for _, l := range strings.Split(r.out, "\n") {
				if r.code == 42 && strings.HasPrefix(l, "VSYM-VIOLATION ") {
					confirmed = append(confirmed, &Violation{Label: strings.TrimPrefix(l, "VSYM-VIOLATION "), Fn: s.Fn,
						Msg: "real code violates the assertion on the inputs of a path", Repl: []map[string]any{s.Data}, Detail: tail(r.out, 2000)})
				}
			}
			if r.code == 2 && strings.Contains(r.out, "panic:") {
				confirmed = append(confirmed, &Violation{Label: "panic", Fn: s.Fn, Msg: "real code panics on the inputs of a path",
					Repl: []map[string]any{s.Data}, Detail: tail(r.out, 2000)})
			}
		}()
	}
	wg.Wait()

	// report
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	exit := 0
	nv := 0
	var vtext []string
	printed := map[string]bool{}
	for _, v := range confirmed {
		listed := false
		for _, k := range kn {
			if k.label == v.Label && k.fn == v.Fn {
				k.hit = true
				listed = true
			}
		}
		if listed {
			continue
		}
		key := v.Fn + "/" + v.Label
		if printed[key] {
			continue
		}
		printed[key] = true
		nv++
		rp := filepath.Join(verif, "evidence", fmt.Sprintf("replay-%s-%s-%s.json", id, v.Fn, sanitize(v.Label)))
		j, _ := json.MarshalIndent(map[string]any{"property": id, "label": v.Label, "fn": v.Fn, "what": v.Msg,
			"data": v.Repl[0], "path": v.Trace, "native_output": v.Detail,
			"how": "cd /verif && ./check -replay " + rp}, "", " ")
		os.WriteFile(rp, j, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		fmt.Printf("  %s %s: %s\n", v.Fn, v.Label, v.Msg)
		vtext = append(vtext, v.Fn+" "+v.Label+": "+v.Msg)
		exit = 1
	}
	for _, k := range kn {
		if k.hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s in %s)\n", id, k.text, k.label, k.fn)
		}
	}

	var missing []string
	if os.Getenv("GOSYM_ONLY") == "" {
		for c := range e.needCov {
			if e.covers[c] == 0 {
				missing = append(missing, c)
			}
		}
	}
	sort.Strings(missing)
	var reduced []string
	if e.pending > 0 {
		reduced = append(reduced, fmt.Sprintf("%d paths not explored (budget)", e.pending))
	}
	reduced = append(reduced, prefixAll("unsupported: ", sortedCount(e.unsup, 30))...)
	reduced = append(reduced, prefixAll("solver unknown on assertion: ", sortedCount(e.unkA, 30))...)
	reduced = append(reduced, prefixAll("not reached: ", missing)...)
	reduced = append(reduced, prefixAll("candidate not reproduced: ", unconf)...)
	for _, s := range e.idBad {
		reduced = append(reduced, "identity refuted by the integer solver: "+tail(s, 300))
	}
	reduced = append(reduced, prefixAll("native run disagrees: ", diverged)...)
	var encoded []string
	repoFns := 0
	for f := range e.funcs {
		s := f.String()
		if strings.Contains(s, "/verifh/") || strings.Contains(s, "/internal/vsym") {
			continue
		}
		if strings.Contains(s, "taurusgroup") {
			repoFns++
			s = strings.ReplaceAll(s, repoP, "")
			pos := e.fset.Position(f.Pos())
			if pos.IsValid() {
				s += fmt.Sprintf(" (%s:%d)", strings.TrimPrefix(pos.Filename, e.repo+"/"), pos.Line)
			}
			encoded = append(encoded, s)
		}
	}
	sort.Strings(encoded)
	var samples []any
	for i, s := range e.samples {
		if i >= 12 {
			break
		}
		samples = append(samples, map[string]any{"harness": s.Fn, "path": tail(s.Desc, 800), "covers": s.Covers, "native": s.Native, "inputs": s.Data["inputs"]})
	}
	perFn := map[string]int{}
	for k, v := range e.perFn {
		perFn[k] = v
	}
	cov := map[string]any{
		"states":                        e.steps,
		"states_meaning":                "SSA instructions executed symbolically over all paths",
		"transitions":                   e.branch,
		"transitions_meaning":           "branch, choice and scheduling decisions left open and forked",
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"paths_completed":               e.done,
		"paths_started":                 e.paths,
		"paths_per_harness":             perFn,
		"paths_infeasible":              e.aborts[abInfeasible],
		"paths_outside_assumptions":     e.aborts[abAssume],
		"functions_encoded":             encoded,
		"functions_encoded_n":           repoFns,
		"bounds":                        e.harnessConst(fns, "Bounds"),
		"queries":                       e.st.Queries,
		"queries_sat":                   e.st.SatN,
		"queries_unsat":                 e.st.UnsatN,
		"queries_unknown":               e.st.UnknownN,
		"solver_s":                      float64(e.st.SolverNS) / 1e9,
		"field_identities_used":         e.st.NormIdent,
		"field_identities_checked_smt":  e.st.IdentQ,
		"field_identities_unsat":        e.st.IdentOK,
		"field_identities_unknown":      e.st.IdentUnk,
		"field_identity_solver_s":       float64(e.st.IdentNS) / 1e9,
		"race_queries":                  e.raceQ,
		"assertions":                    e.asserts,
		"cover_points":                  e.covers,
		"reduced_bounds":                reduced,
		"notes":                         sortedCount(e.notes, 40),
		"load_s":                        loadT.Seconds(),
		"explore_s":                     exploreT.Seconds(),
		"violations_found":              vtext,
	}
	var assum []string
	for _, a := range append(baseAssumptions, strings.Split(e.harnessConst(fns, "Assumptions"), "\n")...) {
		if a = strings.TrimSpace(a); a != "" {
			assum = append(assum, a)
		}
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assum, "wall_s": time.Since(t0).Seconds(), "violations": nv}
	j, _ := json.MarshalIndent(ev, "", " ")
	evf := filepath.Join(verif, "evidence", id+".json")
	if err := os.WriteFile(evf, j, 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	fmt.Printf("%s %s: %d paths (%d complete), %d steps, %d queries, %.1fs solver, %d identities by SMT, %d/%d native traces agree, %d reduced-bound notes, %.1fs\n",
		id, tier, e.paths, e.done, e.steps, e.st.Queries, float64(e.st.SolverNS)/1e9, e.st.IdentOK, validated, len(cand), len(reduced), time.Since(t0).Seconds())
	for i, r := range reduced {
		if i >= 12 && !debugOn {
			break
		}
		fmt.Println("  note:", tail(r, 1500))
	}
	return exit
}

var baseAssumptions = []string{
	"the curve library filippo.io/edwards25519 and the hash functions are replaced by their mathematical contract: scalars are elements of GF(l), points are (discrete log, torsion) pairs, SHA-512 is an injective function with outputs unrelated to its inputs",
	"a value fixed before fresh randomness or a hash output is drawn does not coincide with it (probability below 2^-120)",
	"crypto/rand returns arbitrary values without error",
}

func prefixAll(p string, l []string) []string {
	var out []string
	for _, s := range l {
		out = append(out, p+s)
	}
	return out
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() > 60 {
		return b.String()[:60]
	}
	return b.String()
}
