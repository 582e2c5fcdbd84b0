package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"filippo.io/edwards25519"
)

var torsion8 = func() *edwards25519.Point {
	b, _ := hex.DecodeString("c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a")
	p, err := new(edwards25519.Point).SetBytes(b)
	if err != nil {
		panic(err)
	}
	return p
}()

func leBytes(k *big.Int, n int) []byte {
	out := make([]byte, n)
	b := k.Bytes()
	for i := range b {
		if i < n {
			out[i] = b[len(b)-1-i]
		}
	}
	return out
}

func nativePoint(l *big.Int, tau uint64) *edwards25519.Point {
	s, err := edwards25519.NewScalar().SetCanonicalBytes(leBytes(l, 32))
	if err != nil {
		panic(err)
	}
	pt := new(edwards25519.Point).ScalarBaseMult(s)
	for i := uint64(0); i < tau&7; i++ {
		pt.Add(pt, torsion8)
	}
	return pt
}

// nativeDecodable: does the concrete encoding denote a point?
func nativeDecodable(kind string, b []Value) bool {
	raw := make([]byte, 32)
	for i, x := range b {
		raw[i] = byte(x.(uint64))
	}
	if kind == "edwards" {
		_, err := new(edwards25519.Point).SetBytes(raw)
		return err == nil
	}
	return refRistrettoDecodable(raw)
}

var bigP = fpP

func modSqrtRatio(u, v *big.Int) bool {
	// is u/v a square mod p (v != 0)
	x := new(big.Int).Mul(u, new(big.Int).ModInverse(v, bigP))
	x.Mod(x, bigP)
	return big.Jacobi(x, bigP) >= 0
}

var edD, _ = new(big.Int).SetString("37095705934669439343138083508754565189542113879843219016388785533085940283555", 10)
var sqrtM1p = new(big.Int).Exp(big.NewInt(2), new(big.Int).Div(new(big.Int).Sub(fpP, big.NewInt(1)), big.NewInt(4)), fpP)

func isNeg(x *big.Int) bool { return new(big.Int).Mod(x, bigP).Bit(0) == 1 }

// refRistrettoDecodable is an independent statement of the decoding rules.
func refRistrettoDecodable(raw []byte) bool {
	_, _, ok := refRistrettoDecode(raw)
	return ok
}

func refRistrettoDecode(raw []byte) (x, y *big.Int, ok bool) {
	s := new(big.Int)
	for i := 31; i >= 0; i-- {
		s.Lsh(s, 8)
		s.Or(s, big.NewInt(int64(raw[i])))
	}
	if s.Cmp(bigP) >= 0 || s.Bit(0) == 1 {
		return nil, nil, false
	}
	M := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, bigP) }
	one := big.NewInt(1)
	ss := M(s, s)
	u1 := new(big.Int).Sub(one, ss)
	u1.Mod(u1, bigP)
	u2 := new(big.Int).Add(one, ss)
	u2s := M(u2, u2)
	v := new(big.Int).Neg(M(edD, M(u1, u1)))
	v.Sub(v, u2s).Mod(v, bigP)
	w := M(v, u2s)
	if w.Sign() == 0 {
		return nil, nil, false
	}
	inv := new(big.Int).ModInverse(w, bigP)
	r := new(big.Int).ModSqrt(inv, bigP)
	if r == nil {
		return nil, nil, false
	}
	if isNeg(r) {
		r.Sub(bigP, r)
	}
	dx := M(r, u2)
	dy := M(r, M(dx, v))
	x = M(M(big.NewInt(2), s), dx)
	if isNeg(x) {
		x.Sub(bigP, x)
	}
	y = M(u1, dy)
	if isNeg(M(x, y)) || y.Sign() == 0 {
		return nil, nil, false
	}
	return x, y, true
}

func refRistrettoEncode(l *big.Int) []byte {
	pt := nativePoint(l, 0)
	X, Y, Z, _ := pt.ExtendedCoordinates()
	toB := func(b []byte) *big.Int {
		k := new(big.Int)
		for i := 31; i >= 0; i-- {
			k.Lsh(k, 8)
			k.Or(k, big.NewInt(int64(b[i])))
		}
		return k
	}
	M := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, bigP) }
	zi := new(big.Int).ModInverse(toB(Z.Bytes()), bigP)
	x, y := M(toB(X.Bytes()), zi), M(toB(Y.Bytes()), zi)
	one := big.NewInt(1)
	t := M(x, y)
	u1 := M(new(big.Int).Add(one, y), new(big.Int).Sub(one, y))
	u2 := t
	w := M(u1, M(u2, u2))
	if w.Sign() == 0 {
		return make([]byte, 32)
	}
	inv := new(big.Int).ModSqrt(new(big.Int).ModInverse(w, bigP), bigP)
	if inv == nil {
		return make([]byte, 32)
	}
	if isNeg(inv) {
		inv.Sub(bigP, inv)
	}
	d1, d2 := M(inv, u1), M(inv, u2)
	zinv := M(M(d1, d2), t)
	if isNeg(M(t, zinv)) {
		// rotate
		amd := new(big.Int).Mod(new(big.Int).Sub(new(big.Int).Neg(one), edD), bigP)
		isq := new(big.Int).ModSqrt(new(big.Int).ModInverse(amd, bigP), bigP)
		if isNeg(isq) {
			isq.Sub(bigP, isq)
		}
		x, y = M(y, sqrtM1p), M(x, sqrtM1p)
		d2 = M(d1, isq)
	}
	if isNeg(M(x, zinv)) {
		y = new(big.Int).Mod(new(big.Int).Neg(y), bigP)
	}
	s := M(d2, new(big.Int).Sub(one, y))
	if isNeg(s) {
		s.Sub(bigP, s)
	}
	return leBytes(s, 32)
}

// realHashes gives the scalars that are hashes the values the real hash
// function takes on the inputs, so that inputs which were solved for in terms
// of such a scalar come out right.  A hash of something that depends on a
// later hash keeps its arbitrary value.
func (p *Path) realHashes(asg map[*FVar]*big.Int, model map[string]*big.Int) {
	solved := false
	for _, v := range p.al.vars {
		solved = solved || v.sub != nil
	}
	if !solved {
		return
	}
	vals := map[string]*big.Int{}
	for k, v := range model {
		vals[k] = v
	}
	digest := map[string]*hashEntry{}
	for _, h := range p.hashes {
		if len(h.out) > 0 {
			if v := freshOf(h.out[0]); v != nil {
				digest[v.name] = h
			}
		}
	}
	done := map[string]bool{}
	var fm map[*FF]*big.Int
	var need func(t *Term, seen map[*Term]bool)
	value := func(b []Value) []byte {
		seen := map[*Term]bool{}
		for _, x := range b {
			if t, ok := x.(*Term); ok {
				need(t, seen)
			}
		}
		memo := map[*Term]*big.Int{}
		raw := make([]byte, len(b))
		for i, x := range b {
			switch x := x.(type) {
			case uint64:
				raw[i] = byte(x)
			case *Term:
				raw[i] = byte(x.eval(vals, memo).Uint64())
			}
		}
		return raw
	}
	need = func(t *Term, seen map[*Term]bool) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op != OVar {
			need(t.a, seen)
			need(t.b, seen)
			need(t.c, seen)
			return
		}
		if done[t.name] {
			return
		}
		var raw []byte
		if h := digest[t.name]; h != nil {
			done[t.name] = true
			raw = nativeHash(h.alg, value(h.in))
		} else if e := p.scByVar[t]; e != nil {
			x := p.al.Eval(e.l, asg, fm)
			switch e.kind {
			case "scalar":
				raw = leBytes(x, 32)
			case "edwards":
				tau := uint64(0)
				switch k := e.tau.(type) {
				case uint64:
					tau = k
				case *Term:
					tau = k.eval(vals, map[*Term]*big.Int{}).Uint64()
				}
				raw = nativePoint(x, tau).Bytes()
			case "ristretto":
				raw = refRistrettoEncode(x)
			}
		} else {
			done[t.name] = true
			return
		}
		k := new(big.Int)
		for i := len(raw) - 1; i >= 0; i-- {
			k.Lsh(k, 8).Or(k, big.NewInt(int64(raw[i])))
		}
		vals[t.name] = k
	}
	for _, u := range p.unis {
		if u.f == nil || u.f.op != fVar || u.f.v.kind != VHash || u.f.v.sub != nil {
			continue
		}
		fm = map[*FF]*big.Int{}
		for n := range digest { // a digest may depend on the scalar before
			delete(done, n)
		}
		raw := value(u.in)
		k := new(big.Int)
		for i := len(raw) - 1; i >= 0; i-- {
			k.Lsh(k, 8).Or(k, big.NewInt(int64(raw[i])))
		}
		asg[u.f.v] = k.Mod(k, ffQ)
	}
}

// replayData turns the path's current model into concrete inputs.
func (p *Path) replayData(seed int64, label string) map[string]any {
	rng := rand.New(rand.NewSource(seed*7919 + 17))
	memo := map[*Term]*big.Int{}
	model := p.model
	if model == nil {
		model = map[string]*big.Int{}
	}
	// random bytes the model leaves open are drawn here, and a uniform scalar
	// takes the value of the bytes it was made from
	m0 := map[*Term]*big.Int{}
	opened := map[string]*big.Int{}
	drawn := map[*Term]byte{}
	for _, rb := range p.randLog {
		if rb.f != nil {
			continue
		}
		raw := make([]byte, len(rb.b))
		zero := true // an open block
		for k, b := range rb.b {
			if t, ok := b.(*Term); ok {
				raw[k] = byte(t.eval(model, m0).Uint64())
			}
			zero = zero && raw[k] == 0
		}
		if zero {
			rng.Read(raw)
		}
		for k, b := range rb.b {
			if t, ok := b.(*Term); ok {
				drawn[t] = raw[k]
				if zero && t.op == OExtract && t.a.op == OVar {
					if opened[t.a.name] == nil {
						opened[t.a.name] = new(big.Int)
					}
					opened[t.a.name].Or(opened[t.a.name], new(big.Int).Lsh(big.NewInt(int64(raw[k])), uint(t.lo)))
				}
			}
		}
	}
	if len(opened) > 0 {
		m2 := map[string]*big.Int{}
		for k, v := range model {
			m2[k] = v
		}
		for k, v := range opened {
			m2[k] = v
		}
		model = m2
	}
	asg := map[*FVar]*big.Int{}
	for _, v := range p.al.vars {
		if v.sub != nil {
			continue
		}
		if v.kind == VBV {
			asg[v] = v.bv.eval(model, memo)
			continue
		}
		b := make([]byte, 40)
		rng.Read(b)
		asg[v] = new(big.Int).Mod(new(big.Int).SetBytes(b), ffQ)
	}
	var late []*uniEntry
	for _, u := range p.unis {
		if u.f == nil {
			continue
		}
		k, all := new(big.Int), true
		for i := len(u.in) - 1; i >= 0; i-- {
			x, ok := u.in[i].(uint64)
			if t, is := u.in[i].(*Term); is {
				var b byte
				b, ok = drawn[t]
				x = uint64(b)
				if p.srcBytes[t] {
					x, ok = t.eval(model, memo).Uint64(), true
				}
			}
			all = all && ok
			k.Lsh(k, 8).Or(k, new(big.Int).SetUint64(x))
		}
		if !all {
			continue
		}
		if u.f.op == fVar && u.f.v.sub == nil && u.f.v.kind != VBV {
			asg[u.f.v] = k.Mod(k, ffQ)
		} else {
			late = append(late, u)
		}
	}
	p.realHashes(asg, model)
	fm := map[*FF]*big.Int{}
	ev := func(f *FF) *big.Int { return p.al.Eval(f, asg, fm) }
	for _, u := range late { // the scalar's value is determined: encode it
		for i, x := range leBytes(ev(u.f), len(u.in)) {
			if t, ok := u.in[i].(*Term); ok {
				drawn[t] = x
			}
		}
	}
	bv := func(v Value) uint64 {
		switch x := v.(type) {
		case uint64:
			return x
		case *Term:
			return x.eval(model, memo).Uint64()
		}
		return 0
	}
	in := map[string]string{}
	for _, i := range p.inputs {
		switch i.Kind {
		case "int":
			in[i.Name] = i.T.eval(model, memo).String()
		case "choice":
			in[i.Name] = fmt.Sprint(i.C)
		case "bytes":
			raw := make([]byte, i.N)
			for k, b := range i.Bs {
				raw[k] = byte(bv(b))
			}
			// windows that were decoded as scalars or points take the decoded value
			for _, e := range p.encs {
				if e.v != nil || len(e.b) != 32 {
					continue
				}
				for k := 0; k+32 <= i.N; k++ {
					if !sameBytes(e.b, i.Bs[k:k+32]) {
						continue
					}
					switch e.kind {
					case "scalar":
						copy(raw[k:], leBytes(ev(e.l), 32))
					case "edwards":
						copy(raw[k:], nativePoint(ev(e.l), bv(e.tau)).Bytes())
					case "ristretto":
						copy(raw[k:], refRistrettoEncode(ev(e.l)))
					}
				}
			}
			for _, d := range p.decs {
				if d.pt != nil || len(d.in) != 32 {
					continue
				}
				for k := 0; k+32 <= i.N; k++ {
					if !sameBytes(d.in, i.Bs[k:k+32]) {
						continue
					}
					// an invalid encoding that satisfies the path's constraints: keep the
					// model's bits if they are already invalid
					for try := 0; try < 64 && refRistrettoDecodable(raw[k:k+32]); try++ {
						rng.Read(raw[k : k+31])
						raw[k] &^= 1
						raw[k+31] &= 0x3f
					}
				}
			}
			in[i.Name] = hex.EncodeToString(raw)
		case "scalar":
			in[i.Name] = hex.EncodeToString(leBytes(ev(i.F), 32))
		case "element":
			in[i.Name] = fmt.Sprintf("%s:%d", hex.EncodeToString(leBytes(ev(i.F), 32)), bv(i.Tau))
		}
	}
	var rnd []string
	for _, rb := range p.randLog {
		if rb.f != nil {
			rnd = append(rnd, hex.EncodeToString(leBytes(ev(rb.f), len(rb.b))))
			continue
		}
		raw := make([]byte, len(rb.b))
		for k, b := range rb.b {
			if t, ok := b.(*Term); ok {
				raw[k] = drawn[t]
			} else {
				raw[k] = byte(bv(b))
			}
		}
		rnd = append(rnd, hex.EncodeToString(raw))
	}
	var rel []string
	if p.rel != nil {
		rel = p.rel.data(ev)
	}
	field := 0
	if p.fc != nil {
		field = 300
		if label != "" {
			field = 30000
		}
	}
	return map[string]any{"field": field, "conc": len(p.gs) > 1, "rel": rel, "inputs": in, "rand": rnd, "seed": seed, "label": label, "tier": p.eng.tier, "fn": p.fn.Name()}
}

// Native builds and runs the harness against the real code.
type Native struct {
	eng   *Engine
	dir   string
	bin   map[string]string
	errs  string
	mu    sync.Mutex
	fns   []string
	verif string
	// time left for repeating concurrent runs
	hunting time.Duration
}

// build makes the replay program: "" plainly, with "race" under the race
// detector, with "delay" so that locking takes a random little while.
func (n *Native) build(mode string) (string, error) {
	race := strings.Contains(mode, "race")
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bin[mode]; ok {
		if b == "" {
			return "", fmt.Errorf("native build failed: %s", n.errs)
		}
		return b, nil
	}
	id := strings.ToLower(n.eng.id)
	files, err := overlayFiles(n.eng.repo, n.verif, n.eng.id)
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\th \"" + repoP + "pkg/internal/verifh/" + id + "\"\n\t\"" + repoP + "pkg/internal/vsym\"\n)\n\nfunc main() {\n\tvsym.Init()\n\tswitch os.Args[1] {\n")
	for _, f := range n.fns {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\tvsym.Run(h.%s)\n", f, f)
	}
	sb.WriteString("\t}\n\tvsym.Done()\n}\n")
	mainF := filepath.Join(n.dir, "main.go")
	os.WriteFile(mainF, []byte(sb.String()), 0o644)
	files[filepath.Join(n.eng.repo, "pkg/internal/verifmain/main.go")] = mainF
	if strings.Contains(mode, "delay") {
		n.delays(files)
	}
	ovj, _ := json.Marshal(map[string]any{"Replace": files})
	ovf := filepath.Join(n.dir, "overlay"+mode+".json")
	os.WriteFile(ovf, ovj, 0o644)
	out := filepath.Join(n.dir, "replay"+mode)
	args := []string{"build", "-overlay", ovf, "-o", out}
	if race {
		out += "-race"
		args = []string{"build", "-race", "-overlay", ovf, "-o", out}
	}
	cmd := exec.Command("go", append(args, "./pkg/internal/verifmain")...)
	cmd.Dir = n.eng.repo
	cmd.Env = goEnv("readonly")
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	o, err := cmd.CombinedOutput()
	if err != nil {
		n.bin[mode] = ""
		n.errs = string(o)
		return "", fmt.Errorf("native build: %s", o)
	}
	n.bin[mode] = out
	return out, nil
}

type runRes struct {
	code    int
	out     string
	timeout bool
}

// delays replaces the locks of the code by ones that take a while.
func (n *Native) delays(files map[string]string) {
	vs, _ := filepath.Glob(filepath.Join(n.verif, "harness/vsync/*.go"))
	for _, f := range vs {
		files[filepath.Join(n.eng.repo, "pkg/internal/vsync", filepath.Base(f))] = f
	}
	k := 0
	filepath.WalkDir(n.eng.repo, func(f string, d os.DirEntry, err error) error {
		if err != nil || !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go") || files[f] != "" {
			return nil
		}
		raw, err := os.ReadFile(f)
		if err != nil {
			return nil
		}
		ast, err := parser.ParseFile(token.NewFileSet(), f, raw, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		for _, im := range ast.Imports {
			if im.Path.Value != "\"sync\"" || im.Name != nil {
				continue
			}
			p := int(im.Path.Pos()) - 1
			r := string(raw[:p]) + "sync \"" + repoP + "pkg/internal/vsync\"" + string(raw[p+len(im.Path.Value):])
			k++
			out := filepath.Join(n.dir, fmt.Sprintf("delay%d.go", k))
			os.WriteFile(out, []byte(r), 0o644)
			files[f] = out
		}
		return nil
	})
}

func (n *Native) run(data map[string]any, mode string, timeout time.Duration, env ...string) (*runRes, error) {
	bin, err := n.build(mode)
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(n.dir, "replay-*.json")
	if err != nil {
		return nil, err
	}
	j, _ := json.Marshal(data)
	f.Write(j)
	f.Close()
	defer os.Remove(f.Name())
	return runNative(bin, fmt.Sprint(data["fn"]), f.Name(), timeout, env...)
}

func runNative(bin, fn, file string, timeout time.Duration, env ...string) (*runRes, error) {
	limit := "16000000"
	if strings.HasSuffix(bin, "-race") {
		limit = "unlimited"
	}
	cmd := exec.Command("bash", "-c", "ulimit -v "+limit+"; exec timeout -s KILL "+fmt.Sprint(int(timeout.Seconds()))+` "$0" "$1"`, bin, fn)
	cmd.Env = append(os.Environ(), "VSYM_REPLAY="+file, "GORACE=halt_on_error=0 exitcode=66", "GOMEMLIMIT=2GiB", "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, env...)
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	err := cmd.Run()
	r := &runRes{out: ob.String()}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			r.code = x.ExitCode()
		} else {
			return nil, err
		}
	}
	r.timeout = r.code == 137 || r.code == -1
	return r, nil
}

// reproduces: does the run show the violation with this label?
func reproduces(r *runRes, label string) bool {
	switch label {
	case "panic":
		return r.code == 2 && strings.Contains(r.out, "panic:")
	case "no-termination":
		return r.timeout || r.code == 2 && strings.Contains(r.out, "out of memory")
	case "deadlock":
		return r.timeout || r.code == 2 && strings.Contains(r.out, "all goroutines are asleep")
	case "race":
		return strings.Contains(r.out, "WARNING: DATA RACE")
	}
	return r.code == 42 && strings.Contains(r.out, "VSYM-VIOLATION "+label+"\n")
}
