package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(p *Path, a []Value) Value

var table = map[string]intrinsicFn{}

const (
	edPkg = "filippo.io/edwards25519"
	repoP = "github.com/taurusgroup/frost-ed25519/"
	risT  = "(*" + repoP + "pkg/ristretto.Element)."
	vsymP = repoP + "pkg/internal/vsym."
)

func def(name string, f intrinsicFn) { table[name] = f }

// ---- errors created by modelled library code ----

type HostErr struct {
	format string
	args   []Value // fmt.Errorf arguments
	text   string
	unwrap []Value
	isText bool
}

func (e *HostErr) method(name string) func(p *Path, args []Value) Value {
	switch name {
	case "Error", "String":
		return func(p *Path, _ []Value) Value { return e.Text(p) }
	case "Unwrap":
		return func(p *Path, _ []Value) Value {
			if len(e.unwrap) > 0 {
				return e.unwrap[0]
			}
			return nil
		}
	}
	return nil
}

func (e *HostErr) Text(p *Path) Value {
	if e.isText {
		return e.text
	}
	return p.sprintf(e.format, e.args)
}

func (p *Path) hostErr(text string) Value {
	return &Iface{t: p.eng.errT, v: &HostErr{text: text, isText: true}}
}

// callMethod invokes a method by name on a dynamic value.
func (p *Path) callMethod(i *Iface, name string, args ...Value) (Value, bool) {
	if h, ok := i.v.(hostMethods); ok {
		m := h.method(name)
		if m == nil {
			return nil, false
		}
		return m(p, args), true
	}
	sel := p.eng.prog.MethodSets.MethodSet(i.t)
	for k := 0; k < sel.Len(); k++ {
		s := sel.At(k)
		if s.Obj().Name() == name {
			fn := p.eng.prog.MethodValue(s)
			if fn == nil {
				return nil, false
			}
			return p.call(fn, append([]Value{i.v}, args...)), true
		}
	}
	return nil, false
}

func (p *Path) hasMethod(t types.Type, name string) bool {
	sel := p.eng.prog.MethodSets.MethodSet(t)
	for k := 0; k < sel.Len(); k++ {
		if sel.At(k).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (p *Path) goString(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		out := make([]byte, len(x.b))
		for i, b := range x.b {
			if c, ok := b.(uint64); ok {
				out[i] = byte(c)
			} else {
				out[i] = '?'
			}
		}
		return string(out)
	}
	return fmt.Sprintf("<%T>", v)
}

func (p *Path) sprintf(format string, args []Value) Value {
	var sb strings.Builder
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			sb.WriteByte(format[i])
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.[]", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			sb.WriteString("%!(NOVERB)")
			break
		}
		verb := format[j]
		spec := format[i:j]
		i = j
		if verb == '%' {
			sb.WriteByte('%')
			continue
		}
		if ai >= len(args) {
			sb.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		sb.WriteString(fmt.Sprintf(spec+string(verb), p.native(a, verb)))
	}
	return sb.String()
}

// native converts a dynamic value for formatting.
func (p *Path) native(a Value, verb byte) any {
	ifc, ok := a.(*Iface)
	if !ok || ifc == nil {
		return nil
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' {
		if r, ok := p.callMethodStr(ifc, "Error"); ok {
			return r
		}
		if r, ok := p.callMethodStr(ifc, "String"); ok {
			return r
		}
	}
	return p.nativeVal(ifc.t, ifc.v)
}

func (p *Path) callMethodStr(i *Iface, name string) (string, bool) {
	if _, host := i.v.(hostMethods); !host && !p.hasMethod(i.t, name) {
		return "", false
	}
	r, ok := p.callMethod(i, name)
	if !ok {
		return "", false
	}
	return p.goString(r), true
}

func (p *Path) nativeVal(t types.Type, v Value) any {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		return p.goString(x)
	case bool, float64:
		return x
	case *Term:
		if x.w == 0 {
			return p.Decide(x)
		}
		return "<sym>"
	case uint64:
		w, s := widthOf(t)
		if s {
			return signX(x, w)
		}
		return x
	case Slice:
		var b []byte
		for _, e := range p.sliceBytes(x) {
			if c, ok := e.(uint64); ok {
				b = append(b, byte(c))
			} else {
				b = append(b, '?')
			}
		}
		return b
	case nil:
		return nil
	}
	return fmt.Sprintf("<%v>", t)
}

func (p *Path) ifaceArgs(v Value) []Value {
	s, ok := v.(Slice)
	if !ok || s.a == nil {
		return nil
	}
	return s.a.e[s.off : s.off+s.len]
}

// ---- scalars ----

func (p *Path) opq(v Value) *Opaque {
	o, ok := v.(*Opaque)
	if !ok {
		if v == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		p.unsupported("opaque operand %T", v)
	}
	return o
}

func (p *Path) sc(v Value) *FF {
	o := p.opq(v)
	if p.races != nil {
		p.races.access(p, o, false)
	}
	if o.v == nil {
		return p.al.zero
	}
	f, ok := o.v.(*FF)
	if !ok {
		p.unsupported("scalar payload %T", o.v)
	}
	return f
}

func (p *Path) setOpq(v Value, x any) Value {
	o := p.opq(v)
	if p.races != nil {
		p.races.access(p, o, true)
	}
	o.v = x
	return o
}

func (p *Path) pt(v Value) *PointV {
	o := p.opq(v)
	if p.races != nil {
		p.races.access(p, o, false)
	}
	if o.v == nil {
		return nil
	}
	x, ok := o.v.(*PointV)
	if !ok {
		p.unsupported("point payload %T", o.v)
	}
	return x
}

// ptI: initialised point
func (p *Path) ptI(v Value) *PointV {
	x := p.pt(v)
	if x == nil {
		p.userPanic("edwards25519: use of uninitialized Point")
	}
	return x
}

func (p *Path) newOpq(t types.Type, x any) *Opaque {
	return &Opaque{typ: t, v: x, id: p.newID()}
}

func (p *Path) scaleP(s *FF, q *PointV) *PointV {
	tau := q.tau
	if t, ok := tau.(uint64); !ok || t != 0 {
		tau = p.tauMul(p.low3of(s), tau)
	}
	return &PointV{p.al.Mul(s, q.l), tau}
}

func (p *Path) addP(a, b *PointV) *PointV {
	return &PointV{p.al.Add(a.l, b.l), p.tauAdd(a.tau, b.tau)}
}

func b2u(b bool) Value {
	if b {
		return uint64(1)
	}
	return uint64(0)
}

// scalarFromBytes interprets 32 bytes as a canonical scalar.
func (p *Path) scalarFromBytes(b []Value) (*FF, bool) {
	if len(b) != 32 {
		return nil, false
	}
	if e := p.encAt(b, 0); e != nil && e.kind == "scalar" {
		return e.l, true
	}
	for _, e := range p.encs {
		if e.kind == "scalar" && sameBytes(e.b, b) {
			return e.l, true
		}
	}
	if p.allConcrete(b) {
		k := concLE(b)
		if k.Cmp(ffQ) >= 0 {
			return nil, false
		}
		return p.al.Const(k), true
	}
	t := p.concatLE(b)
	if p.pool.highBit(t) <= 252 {
		return p.scalarOf(p.pool.Extract(t, 251, 0)), true
	}
	if !p.Decide(p.pool.Cmp(OUlt, t, p.pool.BigConst(256, ffQ))) {
		return nil, false
	}
	v := p.al.NewVar(fmt.Sprintf("dec%d", len(p.encs)), VInput)
	f := p.al.VarNode(v)
	p.addEnc(&encEntry{kind: "scalar", l: f, tau: uint64(0), b: append([]Value{}, b...)})
	return f, true
}

func sameBytes(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// uniform maps 64 bytes to a scalar modulo q.
func (p *Path) uniform(b []Value) *FF {
	if p.allConcrete(b) {
		return p.al.Const(concLE(b))
	}
	for _, u := range p.unis {
		if u.f != nil && sameBytes(u.in, b) {
			return u.f
		}
	}
	// small values embed exactly
	t := p.concatLE(b)
	if p.pool.highBit(t) <= 252 {
		return p.scalarOf(p.pool.Extract(t, 251, 0))
	}
	kind := VInput
	for _, x := range b {
		if tm, ok := x.(*Term); ok {
			for tm.op == OExtract {
				tm = tm.a
			}
			if tm.op == OVar {
				if (p.srcBytes[x.(*Term)] || strings.HasPrefix(tm.name, "rand#")) && kind != VHash {
					kind = VRand
				}
				if strings.HasPrefix(tm.name, "hash#") {
					kind = VHash
				}
			}
		}
	}
	v := p.al.NewVar(fmt.Sprintf("u%d", len(p.unis)), kind)
	f := p.al.VarNode(v)
	p.unis = append(p.unis, &uniEntry{in: append([]Value{}, b...), f: f})
	if kind == VRand {
		v.name = fmt.Sprintf("r%d", len(p.unis))
	}
	if kind == VHash {
		v.name = fmt.Sprintf("h%d", len(p.unis))
	}
	return f
}

// decodePoint decodes 32 bytes of the given encoding.
func (p *Path) decodePoint(kind string, b []Value) (*PointV, bool) {
	if len(b) != 32 {
		return nil, false
	}
	if e := p.encAt(b, 0); e != nil && e.kind == kind {
		tau := e.tau
		if kind == "ristretto" {
			tau = p.evenTau()
		}
		return &PointV{e.l, tau}, true
	}
	for _, d := range p.decs {
		if d.pt != nil && sameBytes(d.in, b) {
			return d.pt, true
		}
		if d.pt == nil && d.sc == nil && sameBytes(d.in, b) {
			return nil, false
		}
	}
	if p.allConcrete(b) {
		k := concLE(b)
		if kind == "ristretto" && k.Sign() == 0 {
			return &PointV{p.al.zero, uint64(0)}, true
		}
		if kind == "edwards" && k.Cmp(big.NewInt(1)) == 0 {
			return &PointV{p.al.zero, uint64(0)}, true
		}
		if !nativeDecodable(kind, b) {
			return nil, false
		}
	} else {
		t := p.concatLE(b)
		if kind == "ristretto" {
			if !p.Decide(p.pool.And(p.pool.Cmp(OUlt, t, p.pool.BigConst(256, fpP)),
				p.pool.Eq(p.pool.Extract(t, 0, 0), p.pool.Const(1, 0)))) {
				p.decs = append(p.decs, &decEntry{in: append([]Value{}, b...)})
				return nil, false
			}
			if p.Decide(p.pool.Eq(t, p.pool.Const(256, 0))) {
				return &PointV{p.al.zero, uint64(0)}, true
			}
		}
		if p.Choose(2) == 1 {
			p.decs = append(p.decs, &decEntry{in: append([]Value{}, b...)})
			return nil, false
		}
	}
	v := p.al.NewVar(fmt.Sprintf("pt%d", len(p.decs)), VInput)
	f := p.al.VarNode(v)
	var tau Value = p.evenTau()
	if kind == "edwards" {
		tau = p.fresh("tau", 3)
	}
	pv := &PointV{f, tau}
	if kind == "ristretto" {
		p.addNonzero(polyVar(v.idx))
	}
	p.decs = append(p.decs, &decEntry{in: append([]Value{}, b...), pt: pv})
	et := tau
	if kind == "ristretto" {
		et = uint64(0)
	}
	p.addEnc(&encEntry{kind: kind, l: f, tau: et, b: append([]Value{}, b...)})
	return pv, true
}

// evenTau: an arbitrary even torsion component (ristretto representatives).
func (p *Path) evenTau() Value {
	return p.pool.Concat(p.fresh("tau", 2), p.pool.Const(1, 0))
}

func (p *Path) tauEven(v Value) bool {
	switch x := v.(type) {
	case uint64:
		return x&1 == 0
	case *Term:
		return p.termEven(x, 12)
	}
	return false
}

func (p *Path) termEven(t *Term, d int) bool {
	if d == 0 {
		return false
	}
	switch t.op {
	case OConst:
		return t.k.Bit(0) == 0
	case OConcat:
		return p.pool.lowZeros(t) > 0
	case OMul:
		return p.termEven(t.a, d-1) || p.termEven(t.b, d-1)
	case OAdd, OSub:
		return p.termEven(t.a, d-1) && p.termEven(t.b, d-1)
	case OZext:
		return p.termEven(t.a, d-1)
	case OExtract:
		return t.lo == 0 && p.termEven(t.a, d-1)
	}
	return false
}

// ---- hashing ----

func nativeHash(alg string, in []byte) []byte {
	switch alg {
	case "sha512":
		s := sha512.Sum512(in)
		return s[:]
	case "sha384":
		s := sha512.Sum384(in)
		return s[:]
	case "sha512_256":
		s := sha512.Sum512_256(in)
		return s[:]
	case "sha256":
		s := sha256.Sum256(in)
		return s[:]
	}
	panic("hash " + alg)
}

var hashLen = map[string]int{"sha512": 64, "sha384": 48, "sha512_256": 32, "sha256": 32}

// hash is the idealised (collision-free) hash function.
func (p *Path) hash(alg string, in []Value) []Value {
	if p.allConcrete(in) {
		raw := make([]byte, len(in))
		for i, x := range in {
			raw[i] = byte(x.(uint64))
		}
		d := nativeHash(alg, raw)
		out := make([]Value, len(d))
		for i, c := range d {
			out[i] = uint64(c)
		}
		// remember it so that symbolic inputs can coincide with it
		for _, h := range p.hashes {
			if h.alg == alg && sameBytes(h.in, in) {
				return out
			}
			if h.alg == alg && len(h.in) == len(in) && !p.allConcrete(h.in) && p.bytesEq(h.in, in) {
				// the symbolic query was the same input: its output is the real digest
				p.Constrain(p.bytesTerm(h.out, out))
				p.hashLinked = true
				return out
			}
		}
		p.hashes = append(p.hashes, &hashEntry{in: append([]Value{}, in...), out: out, alg: alg})
		return out
	}
	for _, h := range p.hashes {
		if h.alg == alg && len(h.in) == len(in) && p.bytesEq(h.in, in) {
			return h.out
		}
	}
	n := hashLen[alg]
	v := p.fresh("hash", 8*n)
	out := make([]Value, n)
	for i := range out {
		out[i] = p.pool.Extract(v, 8*i+7, 8*i)
	}
	p.hashes = append(p.hashes, &hashEntry{in: append([]Value{}, in...), out: out, alg: alg})
	return out
}

func (p *Path) bytesTerm(a, b []Value) *Term {
	t := p.pool.T
	for i := range a {
		t = p.pool.And(t, p.pool.Eq(p.term(a[i], 8), p.term(b[i], 8)))
	}
	return t
}

type HostHash struct {
	alg string
	buf []Value
}

func (h *HostHash) method(name string) func(p *Path, args []Value) Value {
	switch name {
	case "Write", "WriteString":
		return func(p *Path, a []Value) Value {
			b := p.sliceBytes(a[0])
			h.buf = append(append([]Value{}, h.buf...), b...)
			return Tuple{uint64(len(b)), nil}
		}
	case "Sum":
		return func(p *Path, a []Value) Value {
			d := p.hash(h.alg, h.buf)
			s := p.newBytes(d)
			return p.appendOp([]Value{a[0], s}, nil)
		}
	case "Reset":
		return func(p *Path, a []Value) Value { h.buf = nil; return nil }
	case "Size":
		return func(p *Path, a []Value) Value { return uint64(hashLen[h.alg]) }
	case "BlockSize":
		return func(p *Path, a []Value) Value {
			if h.alg == "sha256" {
				return uint64(64)
			}
			return uint64(128)
		}
	}
	return nil
}

type HostRand struct{}

func (HostRand) method(name string) func(p *Path, args []Value) Value {
	if name == "Read" {
		return func(p *Path, a []Value) Value { return p.randRead(a[0], false) }
	}
	return nil
}

func (p *Path) randRead(dst Value, fatal bool) Value {
	s, _ := dst.(Slice)
	if s.len == 0 {
		return Tuple{uint64(0), nil}
	}
	if p.randFail > 0 {
		p.randFail--
		if p.randFail == 0 {
			p.randFailed = true
			if p.randShort != nil {
				n := 0
				for _, b := range p.randShort {
					if n < s.len {
						p.store(nil, ElemPtr{s.a, s.off + n}, b)
						if t, ok := b.(*Term); ok {
							if p.srcBytes == nil {
								p.srcBytes = map[*Term]bool{}
							}
							p.srcBytes[t] = true
						}
						n++
					}
				}
				p.randShort = nil
				if !fatal || n == s.len {
					return Tuple{uint64(n), nil}
				}
				// crypto/rand.Read reads on until the buffer is full
				rest := s
				rest.off += n
				rest.len -= n
				p.randRead(rest, fatal)
				return Tuple{uint64(s.len), nil}
			}
			if fatal {
				panic(&pathAbort{abAssume, "crypto/rand.Read ends the process"})
			}
			return Tuple{uint64(0), p.hostErr("vsym: no randomness")}
		}
	}
	v := p.fresh("rand", 8*s.len)
	rb := &randBlock{}
	for i := 0; i < s.len; i++ {
		t := p.pool.Extract(v, 8*i+7, 8*i)
		p.store(nil, ElemPtr{s.a, s.off + i}, t)
		rb.b = append(rb.b, t)
	}
	if len(p.nextRand) > 0 && s.len == 64 {
		rb.f = p.nextRand[0]
		p.nextRand = p.nextRand[1:]
		p.unis = append(p.unis, &uniEntry{in: rb.b, f: rb.f})
	}
	p.randLog = append(p.randLog, rb)
	return Tuple{uint64(s.len), nil}
}

func (p *Path) globalOverride(g *ssa.Global) (Value, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "crypto/rand.Reader":
		return &Iface{t: p.eng.errT, v: HostRand{}}, true
	case "encoding/base64.StdEncoding":
		return &Opaque{v: base64.StdEncoding}, true
	case "encoding/base64.RawStdEncoding":
		return &Opaque{v: base64.RawStdEncoding}, true
	case "encoding/base64.URLEncoding":
		return &Opaque{v: base64.URLEncoding}, true
	case "encoding/base64.RawURLEncoding":
		return &Opaque{v: base64.RawURLEncoding}, true
	case "strconv.ErrRange":
		return p.hostErr("value out of range"), true
	case "strconv.ErrSyntax":
		return p.hostErr("invalid syntax"), true
	case "os.Stdout", "os.Stderr", "os.Stdin":
		return p.newOpq(p.eng.fileT, nil), true
	case "io.EOF":
		return p.hostErr("EOF"), true
	case "io.ErrUnexpectedEOF":
		return p.hostErr("unexpected EOF"), true
	}
	return nil, false
}

// textReg: opaque renderings (base64, decimal) of symbolic data
type textEntry struct {
	kind string
	out  []Value
	src  []Value
	num  *Term
	enc  *base64.Encoding
}

func (p *Path) opaqueText(e *textEntry, n int) Value {
	for _, o := range p.texts {
		if o.kind == e.kind && o.enc == e.enc && len(o.out) == n {
			if e.num != nil && o.num == e.num {
				return &SymStr{o.out}
			}
			if e.num == nil && sameBytes(o.src, e.src) {
				return &SymStr{o.out}
			}
		}
	}
	v := p.fresh("text", 8*n)
	for i := 0; i < n; i++ {
		e.out = append(e.out, p.pool.Extract(v, 8*i+7, 8*i))
	}
	p.texts = append(p.texts, e)
	return &SymStr{e.out}
}

func (p *Path) textOf(b []Value, kind string) *textEntry {
	for _, o := range p.texts {
		if o.kind == kind && sameBytes(o.out, b) {
			return o
		}
	}
	return nil
}

func (p *Path) rawBytes(b []Value) []byte {
	out := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(uint64)
		if !ok {
			p.unsupported("symbolic byte where concrete data is needed")
		}
		out[i] = byte(c)
	}
	return out
}

func (p *Path) fromRaw(b []byte) Slice {
	v := make([]Value, len(b))
	for i, c := range b {
		v[i] = uint64(c)
	}
	return p.newBytes(v)
}

func (p *Path) b64enc(encV Value, b []Value) Value {
	enc, _ := p.opq(encV).v.(*base64.Encoding)
	if enc == nil {
		p.unsupported("base64 encoding object")
	}
	if p.allConcrete(b) {
		return enc.EncodeToString(p.rawBytes(b))
	}
	return p.opaqueText(&textEntry{kind: "b64", src: append([]Value{}, b...), enc: enc}, enc.EncodedLen(len(b)))
}

func (p *Path) b64dec(encV Value, s []Value) ([]Value, Value) {
	enc, _ := p.opq(encV).v.(*base64.Encoding)
	if enc == nil {
		p.unsupported("base64 encoding object")
	}
	if e := p.textOf(s, "b64"); e != nil && e.enc == enc {
		return e.src, nil
	}
	r, err := enc.DecodeString(string(p.rawBytes(s)))
	var out []Value
	for _, c := range r {
		out = append(out, uint64(c))
	}
	if err != nil {
		return out, p.hostErr(err.Error())
	}
	return out, nil
}

func (p *Path) parseUint(s []Value, base, bits int) (Value, Value) {
	if e := p.textOf(s, "dec"); e != nil {
		if bits == 0 {
			bits = 64
		}
		w := e.num.w
		if bits < w && !p.Decide(p.pool.Cmp(OUle, e.num, p.pool.BigConst(w, mask(bits)))) {
			return mask(bits).Uint64(), p.hostErr("strconv.ParseUint: value out of range")
		}
		return fromTerm(p.pool.Zext(e.num, 64)), nil
	}
	if !p.allConcrete(s) {
		return p.parseSymDigits(s, base, bits)
	}
	x, err := strconv.ParseUint(string(p.rawBytes(s)), base, bits)
	if err != nil {
		return x, p.hostErr(err.Error())
	}
	return x, nil
}

// parseSymDigits: decimal text of symbolic characters (short).
func (p *Path) parseSymDigits(s []Value, base, bits int) (Value, Value) {
	if base == 0 && len(s) > 0 {
		// the text says its base
		if len(s) > 1 && p.Decide(p.pool.Eq(p.term(s[0], 8), p.pool.Const(8, '0'))) {
			base = 8
			s = s[1:]
			c := p.term(s[0], 8)
			for _, b := range []struct {
				lo, up uint64
				base   int
			}{{'x', 'X', 16}, {'b', 'B', 2}, {'o', 'O', 8}} {
				if p.Decide(p.pool.Or(p.pool.Eq(c, p.pool.Const(8, b.lo)), p.pool.Eq(c, p.pool.Const(8, b.up)))) {
					base, s = b.base, s[1:]
					break
				}
			}
		} else {
			base = 10
		}
		for _, c := range s {
			if p.Decide(p.pool.Eq(p.term(c, 8), p.pool.Const(8, '_'))) {
				p.unsupported("ParseUint of symbolic text with underscores")
			}
		}
	}
	if base < 2 || base > 16 || len(s) > 12 {
		p.unsupported("ParseUint of symbolic text")
	}
	if len(s) == 0 {
		return uint64(0), p.hostErr("strconv.ParseUint: invalid syntax")
	}
	acc := p.pool.Const(64, 0)
	ok := p.pool.T
	for _, c := range s {
		t := p.term(c, 8)
		within := func(lo, hi byte) *Term {
			return p.pool.And(p.pool.Cmp(OUle, p.pool.Const(8, uint64(lo)), t), p.pool.Cmp(OUle, t, p.pool.Const(8, uint64(hi))))
		}
		top := base
		if top > 10 {
			top = 10
		}
		valid := within('0', '0'+byte(top-1))
		d := p.pool.Bin(OSub, t, p.pool.Const(8, '0'))
		if base > 10 {
			for _, a := range []byte{'a', 'A'} {
				is := within(a, a+byte(base-11))
				d = p.pool.Ite(is, p.pool.Bin(OSub, t, p.pool.Const(8, uint64(a-10))), d)
				valid = p.pool.Or(valid, is)
			}
		}
		ok = p.pool.And(ok, valid)
		acc = p.pool.Bin(OAdd, p.pool.Bin(OMul, acc, p.pool.Const(64, uint64(base))), p.pool.Zext(d, 64))
	}
	if !p.Decide(ok) {
		return uint64(0), p.hostErr("strconv.ParseUint: invalid syntax")
	}
	if bits == 0 {
		bits = 64
	}
	if bits < 64 && !p.Decide(p.pool.Cmp(OUle, acc, p.pool.BigConst(64, mask(bits)))) {
		return mask(bits).Uint64(), p.hostErr("strconv.ParseUint: value out of range")
	}
	return fromTerm(acc), nil
}

func (p *Path) sortSlice(sv Value, less Value) {
	ifc, ok := sv.(*Iface)
	if !ok {
		p.unsupported("sort.Slice argument")
	}
	s := ifc.v.(Slice)
	agg := s.a != nil && isAgg(s.a.elem)
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			if !p.mustBool(p.call(less, []Value{uint64(j), uint64(j - 1)})) {
				break
			}
			x, y := s.off+j, s.off+j-1
			if agg {
				t := p.copyAgg(s.a.e[x])
				p.assignInto(s.a.e[x], s.a.e[y])
				p.assignInto(s.a.e[y], t)
			} else {
				s.a.e[x], s.a.e[y] = s.a.e[y], s.a.e[x]
			}
		}
	}
}

func (p *Path) unwrapErrs(e Value) []Value {
	ifc, ok := e.(*Iface)
	if !ok || ifc == nil {
		return nil
	}
	if h, ok := ifc.v.(*HostErr); ok {
		return h.unwrap
	}
	if _, host := ifc.v.(hostMethods); host || !p.hasMethod(ifc.t, "Unwrap") {
		return nil
	}
	r, ok := p.callMethod(ifc, "Unwrap")
	if !ok || r == nil {
		return nil
	}
	if s, ok := r.(Slice); ok {
		return p.ifaceArgs(s)
	}
	return []Value{r}
}

func (p *Path) errorsIs(e, target Value) bool {
	if e == nil || target == nil {
		return e == nil && target == nil
	}
	ti := target.(*Iface)
	var rec func(e Value) bool
	rec = func(e Value) bool {
		ei, ok := e.(*Iface)
		if !ok || ei == nil {
			return false
		}
		if ei == ti || ei.v == ti.v && types.Identical(ei.t, ti.t) {
			return true
		}
		for _, u := range p.unwrapErrs(e) {
			if rec(u) {
				return true
			}
		}
		return false
	}
	return rec(e)
}

func (p *Path) errorsAs(e, target Value) bool {
	ti := target.(*Iface)
	pt := ti.t.(*types.Pointer).Elem()
	var rec func(e Value) bool
	rec = func(e Value) bool {
		ei, ok := e.(*Iface)
		if !ok || ei == nil {
			return false
		}
		_, host := ei.v.(hostMethods)
		if it, is := pt.Underlying().(*types.Interface); is {
			if host || types.Implements(ei.t, it) {
				p.store(pt, ti.v, ei)
				return true
			}
		} else if !host && types.Identical(ei.t, pt) {
			p.store(pt, ti.v, ei.v)
			return true
		}
		for _, u := range p.unwrapErrs(e) {
			if rec(u) {
				return true
			}
		}
		return false
	}
	return rec(e)
}

func nop(p *Path, a []Value) Value { return nil }

func init() {
	S := "(*" + edPkg + ".Scalar)."
	P := "(*" + edPkg + ".Point)."
	un := func(f func(p *Path, x *FF) *FF) intrinsicFn {
		return func(p *Path, a []Value) Value { p.opq(a[0]); return p.setOpq(a[0], f(p, p.sc(a[1]))) }
	}
	bin := func(f func(p *Path, x, y *FF) *FF) intrinsicFn {
		return func(p *Path, a []Value) Value {
			p.opq(a[0])
			x, y := p.sc(a[1]), p.sc(a[2])
			return p.setOpq(a[0], f(p, x, y))
		}
	}
	def(edPkg+".NewScalar", func(p *Path, a []Value) Value { return p.newOpq(p.eng.scalarT, p.al.zero) })
	def(S+"Add", bin(func(p *Path, x, y *FF) *FF { return p.al.Add(x, y) }))
	def(S+"Subtract", bin(func(p *Path, x, y *FF) *FF { return p.al.Sub(x, y) }))
	def(S+"Multiply", bin(func(p *Path, x, y *FF) *FF { return p.al.Mul(x, y) }))
	def(S+"Negate", un(func(p *Path, x *FF) *FF { return p.al.Neg(x) }))
	def(S+"Set", un(func(p *Path, x *FF) *FF { return x }))
	def(S+"Invert", un(func(p *Path, x *FF) *FF {
		if p.isZeroFF(x) {
			return p.al.zero
		}
		return p.al.Inv(x)
	}))
	def(S+"MultiplyAdd", func(p *Path, a []Value) Value {
		p.opq(a[0])
		x, y, z := p.sc(a[1]), p.sc(a[2]), p.sc(a[3])
		return p.setOpq(a[0], p.al.Add(p.al.Mul(x, y), z))
	})
	def(S+"Equal", func(p *Path, a []Value) Value { return b2u(p.eqFF(p.sc(a[0]), p.sc(a[1]))) })
	def(S+"Bytes", func(p *Path, a []Value) Value { return p.newBytes(p.encode("scalar", p.sc(a[0]), uint64(0))) })
	def(S+"SetCanonicalBytes", func(p *Path, a []Value) Value {
		p.opq(a[0])
		b := p.sliceBytes(a[1])
		if len(b) != 32 {
			return Tuple{nil, p.hostErr("invalid scalar length")}
		}
		f, ok := p.scalarFromBytes(b)
		if !ok {
			return Tuple{nil, p.hostErr("invalid scalar encoding")}
		}
		return Tuple{p.setOpq(a[0], f), nil}
	})
	def(S+"SetUniformBytes", func(p *Path, a []Value) Value {
		p.opq(a[0])
		b := p.sliceBytes(a[1])
		if len(b) != 64 {
			return Tuple{nil, p.hostErr("edwards25519: invalid SetUniformBytes input length")}
		}
		return Tuple{p.setOpq(a[0], p.uniform(b)), nil}
	})
	def(S+"SetBytesWithClamping", func(p *Path, a []Value) Value {
		b := p.sliceBytes(a[1])
		if len(b) != 32 {
			return Tuple{nil, p.hostErr("edwards25519: invalid SetBytesWithClamping input length")}
		}
		w := p.rawBytes(b)
		w[0] &= 248
		w[31] &= 63
		w[31] |= 64
		k := concLE(p.fromRaw(w).a.e)
		return Tuple{p.setOpq(a[0], p.al.Const(k)), nil}
	})

	// points
	def(edPkg+".NewIdentityPoint", func(p *Path, a []Value) Value {
		return p.newOpq(p.eng.pointT, &PointV{p.al.zero, uint64(0)})
	})
	def(edPkg+".NewGeneratorPoint", func(p *Path, a []Value) Value {
		return p.newOpq(p.eng.pointT, &PointV{p.al.one, uint64(0)})
	})
	def(P+"Set", func(p *Path, a []Value) Value {
		var x any
		if q := p.pt(a[1]); q != nil {
			x = q
		}
		return p.setOpq(a[0], x)
	})
	def(P+"Add", func(p *Path, a []Value) Value {
		p.opq(a[0])
		return p.setOpq(a[0], p.addP(p.ptI(a[1]), p.ptI(a[2])))
	})
	def(P+"Subtract", func(p *Path, a []Value) Value {
		p.opq(a[0])
		x, y := p.ptI(a[1]), p.ptI(a[2])
		return p.setOpq(a[0], &PointV{p.al.Sub(x.l, y.l), p.tauSub(x.tau, y.tau)})
	})
	def(P+"Negate", func(p *Path, a []Value) Value {
		p.opq(a[0])
		x := p.ptI(a[1])
		return p.setOpq(a[0], &PointV{p.al.Neg(x.l), p.tauSub(uint64(0), x.tau)})
	})
	def(P+"MultByCofactor", func(p *Path, a []Value) Value {
		p.opq(a[0])
		x := p.ptI(a[1])
		return p.setOpq(a[0], &PointV{p.al.Mul(p.al.Const(big.NewInt(8)), x.l), uint64(0)})
	})
	def(P+"Equal", func(p *Path, a []Value) Value {
		x, y := p.ptI(a[0]), p.ptI(a[1])
		if !p.eqFF(x.l, y.l) {
			return uint64(0)
		}
		return b2u(p.Decide(p.pool.Eq(p.term(x.tau, 3), p.term(y.tau, 3))))
	})
	def(P+"Bytes", func(p *Path, a []Value) Value {
		x := p.ptI(a[0])
		return p.newBytes(p.encode("edwards", x.l, x.tau))
	})
	def(P+"SetBytes", func(p *Path, a []Value) Value {
		p.opq(a[0])
		b := p.sliceBytes(a[1])
		if len(b) != 32 {
			return Tuple{nil, p.hostErr("edwards25519: invalid point encoding length")}
		}
		pv, ok := p.decodePoint("edwards", b)
		if !ok {
			return Tuple{nil, p.hostErr("edwards25519: invalid point encoding")}
		}
		return Tuple{p.setOpq(a[0], pv), nil}
	})
	def(P+"ScalarBaseMult", func(p *Path, a []Value) Value {
		p.opq(a[0])
		return p.setOpq(a[0], &PointV{p.sc(a[1]), uint64(0)})
	})
	def(P+"ScalarMult", func(p *Path, a []Value) Value {
		p.opq(a[0])
		s := p.sc(a[1])
		return p.setOpq(a[0], p.scaleP(s, p.ptI(a[2])))
	})
	def(P+"VarTimeDoubleScalarBaseMult", func(p *Path, a []Value) Value {
		p.opq(a[0])
		s, q, b := p.sc(a[1]), p.ptI(a[2]), p.sc(a[3])
		r := p.scaleP(s, q)
		return p.setOpq(a[0], &PointV{p.al.Add(r.l, b), r.tau})
	})
	multi := func(acc bool) intrinsicFn {
		return func(p *Path, a []Value) Value {
			ss, ps := p.ifaceArgs(a[1]), p.ifaceArgs(a[2])
			if len(ss) != len(ps) {
				p.userPanic("edwards25519: called multiscalar multiplication with different size inputs")
			}
			r := &PointV{p.al.zero, uint64(0)}
			if acc {
				// the constant-time routine of this release accumulates onto the receiver
				o := p.pt(a[0])
				if o == nil {
					for _, x := range ps {
						p.ptI(x)
					}
					return p.setOpq(a[0], nil)
				}
				k := new(big.Int).Exp(big.NewInt(16), big.NewInt(63), ffQ)
				r = &PointV{p.al.Mul(p.al.Const(k), o.l), uint64(0)}
			}
			for i := range ss {
				s := p.sc(ss[i])
				r = p.addP(r, p.scaleP(s, p.ptI(ps[i])))
			}
			return p.setOpq(a[0], r)
		}
	}
	def(P+"VarTimeMultiScalarMult", multi(false))
	def(P+"MultiScalarMult", multi(true))

	// ristretto group-level contract (C20 checks it against the curve arithmetic)
	elemPt := func(p *Path, v Value) Value {
		s, ok := v.(*Struct)
		if !ok {
			if v == nil {
				p.runtimePanic("invalid memory address or nil pointer dereference")
			}
			p.unsupported("element %T", v)
		}
		for _, f := range s.f {
			if o, ok := f.(*Opaque); ok {
				return o
			}
		}
		p.unsupported("element layout")
		return nil
	}
	def(risT+"Equal", func(p *Path, a []Value) Value {
		if p.fc != nil {
			return notIntrinsic
		}
		x, y := p.ptI(elemPt(p, a[0])), p.ptI(elemPt(p, a[1]))
		if !p.eqFF(x.l, y.l) {
			return uint64(0)
		}
		if p.tauEven(x.tau) && p.tauEven(y.tau) {
			return uint64(1)
		}
		d := p.term(p.tauSub(x.tau, y.tau), 3)
		return b2u(p.Decide(p.pool.Eq(p.pool.Extract(d, 0, 0), p.pool.Const(1, 0))))
	})
	risBytes := func(p *Path, x *PointV) []Value {
		if !p.tauEven(x.tau) {
			t := p.term(x.tau, 3)
			if !p.Decide(p.pool.Eq(p.pool.Extract(t, 0, 0), p.pool.Const(1, 0))) {
				p.unsupported("encoding of a point outside the even subgroup")
			}
		}
		return p.encode("ristretto", x.l, uint64(0))
	}
	def(risT+"Bytes", func(p *Path, a []Value) Value {
		if p.fc != nil {
			return notIntrinsic
		}
		return p.newBytes(risBytes(p, p.ptI(elemPt(p, a[0]))))
	})
	def(risT+"bytes", func(p *Path, a []Value) Value {
		if p.fc != nil {
			return notIntrinsic
		}
		b := risBytes(p, p.ptI(elemPt(p, a[0])))
		d := a[1].(Slice)
		for i := 0; i < len(b) && i < d.len; i++ {
			p.store(nil, ElemPtr{d.a, d.off + i}, b[i])
		}
		return d
	})
	def(risT+"SetCanonicalBytes", func(p *Path, a []Value) Value {
		if p.fc != nil {
			return notIntrinsic
		}
		el := elemPt(p, a[0])
		pv, ok := p.decodePoint("ristretto", p.sliceBytes(a[1]))
		if !ok {
			return Tuple{nil, p.hostErr("ristretto: invalid element encoding")}
		}
		p.setOpq(el, pv)
		return Tuple{a[0], nil}
	})
	def(risT+"SetUniformBytes", func(p *Path, a []Value) Value {
		if p.fc != nil {
			return notIntrinsic
		}
		el := elemPt(p, a[0])
		b := p.sliceBytes(a[1])
		if len(b) != 64 {
			return Tuple{nil, p.hostErr("ristretto: SetUniformBytes input is not 64 bytes long")}
		}
		for _, u := range p.unis {
			if u.p != nil && sameBytes(u.in, b) {
				p.setOpq(el, u.p)
				return Tuple{a[0], nil}
			}
		}
		v := p.al.NewVar(fmt.Sprintf("ue%d", len(p.unis)), VHash)
		pv := &PointV{p.al.VarNode(v), p.evenTau()}
		p.unis = append(p.unis, &uniEntry{in: append([]Value{}, b...), p: pv})
		p.setOpq(el, pv)
		return Tuple{a[0], nil}
	})

	// hashing
	sum := func(alg string) intrinsicFn {
		return func(p *Path, a []Value) Value {
			o := p.hash(alg, p.sliceBytes(a[0]))
			return &Array{elem: types.Typ[types.Uint8], e: append([]Value{}, o...), id: p.newID()}
		}
	}
	def("crypto/sha512.Sum512", sum("sha512"))
	def("crypto/sha512.Sum384", sum("sha384"))
	def("crypto/sha512.Sum512_256", sum("sha512_256"))
	def("crypto/sha256.Sum256", sum("sha256"))
	newH := func(alg string) intrinsicFn {
		return func(p *Path, a []Value) Value { return &Iface{t: p.eng.errT, v: &HostHash{alg: alg}} }
	}
	def("crypto/sha512.New", newH("sha512"))
	def("crypto/sha512.New384", newH("sha384"))
	def("crypto/sha512.New512_256", newH("sha512_256"))
	def("crypto/sha256.New", newH("sha256"))

	def("crypto/rand.Read", func(p *Path, a []Value) Value { return p.randRead(a[0], true) })
	rint := func(w int) intrinsicFn {
		return func(p *Path, a []Value) Value {
			n := p.term(a[0], w)
			if p.Decide(p.pool.Cmp(OSle, n, p.pool.Const(w, 0))) {
				p.userPanic("invalid argument to Intn")
			}
			v := p.fresh("mrand", w)
			p.Constrain(p.pool.Cmp(OUlt, v, n))
			return v
		}
	}
	def("math/rand.Int31n", rint(32))
	def("math/rand.Int63n", rint(64))
	def("math/rand.Intn", rint(64))
	def("math/rand.Uint32", func(p *Path, a []Value) Value { return p.fresh("mrand", 32) })
	def("math/rand.Uint64", func(p *Path, a []Value) Value { return p.fresh("mrand", 64) })

	def("crypto/ed25519.Verify", func(p *Path, a []Value) Value {
		pub, msg, sig := p.sliceBytes(a[0]), p.sliceBytes(a[1]), p.sliceBytes(a[2])
		if len(pub) != 32 {
			p.userPanic("ed25519: bad public key length")
		}
		if len(sig) != 64 {
			return false
		}
		A, ok := p.decodePoint("edwards", pub)
		if !ok {
			return false
		}
		in := append(append(append([]Value{}, sig[:32]...), pub...), msg...)
		k := p.uniform(p.hash("sha512", in))
		s, ok := p.scalarFromBytes(sig[32:])
		if !ok {
			return false
		}
		kA := p.scaleP(k, A)
		r := &PointV{p.al.Sub(s, kA.l), p.tauSub(uint64(0), kA.tau)}
		return p.bytesEq(sig[:32], p.encode("edwards", r.l, r.tau))
	})

	// byte helpers
	beq := func(p *Path, a []Value) Value { return p.bytesEq(p.sliceBytes(a[0]), p.sliceBytes(a[1])) }
	def("bytes.Equal", beq)
	def("internal/bytealg.Equal", beq)
	// searches over strings and byte slices fork on symbolic bytes
	eqAt := func(p *Path, h []Value, i int, n []Value) bool { return p.bytesEq(h[i:i+len(n)], n) }
	index := func(p *Path, h, n []Value) Value {
		for i := 0; i+len(n) <= len(h); i++ {
			if eqAt(p, h, i, n) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	lastIndex := func(p *Path, h, n []Value) Value {
		for i := len(h) - len(n); i >= 0; i-- {
			if eqAt(p, h, i, n) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	count := func(p *Path, h, n []Value) Value {
		c := 0
		for i := 0; i+len(n) <= len(h); i++ {
			if eqAt(p, h, i, n) {
				c++
			}
		}
		return uint64(c)
	}
	for _, f := range []struct {
		n string
		g func(p *Path, h, n []Value) Value
	}{{"IndexByte", index}, {"LastIndexByte", lastIndex}, {"Count", count}} {
		g := f.g
		one := func(p *Path, a []Value) Value { return g(p, p.sliceBytes(a[0]), []Value{a[1]}) }
		def("internal/bytealg."+f.n, one)
		def("internal/bytealg."+f.n+"String", one)
	}
	def("internal/bytealg.Index", func(p *Path, a []Value) Value { return index(p, p.sliceBytes(a[0]), p.sliceBytes(a[1])) })
	def("internal/bytealg.IndexString", func(p *Path, a []Value) Value { return index(p, p.sliceBytes(a[0]), p.sliceBytes(a[1])) })
	def("strings.Index", func(p *Path, a []Value) Value { return index(p, p.sliceBytes(a[0]), p.sliceBytes(a[1])) })
	def("bytes.Index", func(p *Path, a []Value) Value { return index(p, p.sliceBytes(a[0]), p.sliceBytes(a[1])) })
	cmp := func(p *Path, a []Value) Value {
		x, y := p.sliceBytes(a[0]), p.sliceBytes(a[1])
		for i := 0; i < len(x) && i < len(y); i++ {
			if p.bytesEq(x[i:i+1], y[i:i+1]) {
				continue
			}
			if p.mustBool(p.binop(token.LSS, types.Typ[types.Uint8], x[i], y[i], types.Typ[types.Uint8])) {
				return ^uint64(0)
			}
			return uint64(1)
		}
		switch {
		case len(x) < len(y):
			return ^uint64(0)
		case len(x) > len(y):
			return uint64(1)
		}
		return uint64(0)
	}
	def("internal/bytealg.Compare", cmp)
	def("internal/bytealg.CompareString", cmp)
	def("bytes.Compare", cmp)
	def("strings.Compare", cmp)
	def("internal/bytealg.MakeNoZero", func(p *Path, a []Value) Value {
		n := int(p.Concrete(a[0]))
		return p.makeSlice(types.Typ[types.Uint8], n, n)
	})
	def("crypto/subtle.ConstantTimeCompare", func(p *Path, a []Value) Value {
		return b2u(p.bytesEq(p.sliceBytes(a[0]), p.sliceBytes(a[1])))
	})
	def("crypto/hmac.Equal", beq)

	// errors and formatting
	def("errors.Is", func(p *Path, a []Value) Value { return p.errorsIs(a[0], a[1]) })
	def("errors.As", func(p *Path, a []Value) Value { return p.errorsAs(a[0], a[1]) })
	def("errors.Unwrap", func(p *Path, a []Value) Value {
		if u := p.unwrapErrs(a[0]); len(u) > 0 {
			return u[0]
		}
		return nil
	})
	def("fmt.Errorf", func(p *Path, a []Value) Value {
		f := p.goString(a[0])
		args := append([]Value{}, p.ifaceArgs(a[1])...)
		e := &HostErr{format: f, args: args}
		ai := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
				j++
			}
			if j < len(f) && f[j] == '%' {
				i = j
				continue
			}
			if j < len(f) && f[j] == 'w' && ai < len(args) && args[ai] != nil {
				e.unwrap = append(e.unwrap, args[ai])
			}
			ai++
			i = j
		}
		return &Iface{t: p.eng.errT, v: e}
	})
	def("errors.Join", func(p *Path, a []Value) Value {
		var u []Value
		for _, x := range p.ifaceArgs(a[0]) {
			if x != nil {
				u = append(u, x)
			}
		}
		if len(u) == 0 {
			return nil
		}
		return &Iface{t: p.eng.errT, v: &HostErr{text: "joined error", isText: true, unwrap: u}}
	})
	def("fmt.Sprintf", func(p *Path, a []Value) Value { return strVal(p.text(p.goString(a[0]), p.ifaceArgs(a[1]))) })
	def("fmt.Sprint", func(p *Path, a []Value) Value {
		var s []any
		for _, x := range p.ifaceArgs(a[0]) {
			s = append(s, p.native(x, 'v'))
		}
		return fmt.Sprint(s...)
	})
	def("fmt.Sprintln", func(p *Path, a []Value) Value { return "\n" })
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "internal/race.Acquire", "internal/race.Enable", "internal/race.Disable", "internal/godebug.(*Setting).IncNonDefault"} {
		def(n, nop)
	}

	// sorting
	def("sort.Slice", func(p *Path, a []Value) Value { p.sortSlice(a[0], a[1]); return nil })
	def("sort.SliceStable", func(p *Path, a []Value) Value { p.sortSlice(a[0], a[1]); return nil })
	def("sort.SliceIsSorted", func(p *Path, a []Value) Value {
		s := a[0].(*Iface).v.(Slice)
		for i := s.len - 1; i > 0; i-- {
			if p.mustBool(p.call(a[1], []Value{uint64(i), uint64(i - 1)})) {
				return false
			}
		}
		return true
	})

	// strconv, base64
	def("strconv.FormatUint", func(p *Path, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return strconv.FormatUint(u, int(p.Concrete(a[1])))
		}
		t := a[0].(*Term)
		for t.op == OZext {
			t = t.a
		}
		if p.Concrete(a[1]) != 10 {
			p.unsupported("FormatUint base")
		}
		return p.opaqueText(&textEntry{kind: "dec", num: t}, 5)
	})
	fmtInt := func(p *Path, v Value) Value {
		if u, ok := v.(uint64); ok {
			return strconv.FormatInt(int64(u), 10)
		}
		t := v.(*Term)
		if p.pool.highBit(t) >= t.w && !p.Decide(p.pool.Cmp(OSle, p.pool.Const(t.w, 0), t)) {
			p.unsupported("formatting a negative symbolic integer")
		}
		for t.op == OZext {
			t = t.a
		}
		return p.opaqueText(&textEntry{kind: "dec", num: t}, 5)
	}
	def("strconv.FormatInt", func(p *Path, a []Value) Value { return fmtInt(p, a[0]) })
	def("strconv.Itoa", func(p *Path, a []Value) Value { return fmtInt(p, a[0]) })
	def("strconv.AppendUint", func(p *Path, a []Value) Value {
		s := table["strconv.FormatUint"](p, []Value{a[1], a[2]})
		return p.appendOp([]Value{a[0], p.newBytes(p.sliceBytes(s))}, nil)
	})
	def("strconv.ParseUint", func(p *Path, a []Value) Value {
		v, e := p.parseUint(p.sliceBytes(a[0]), int(int64(p.Concrete(a[1]))), int(p.Concrete(a[2])))
		return Tuple{v, e}
	})
	parseInt := func(p *Path, s []Value, base, bits int) Value {
		if e := p.textOf(s, "dec"); e != nil || !p.allConcrete(s) {
			if bits == 0 {
				bits = 64
			}
			neg := false
			if e == nil && len(s) > 0 {
				t := p.term(s[0], 8)
				neg = p.Decide(p.pool.Eq(t, p.pool.Const(8, '-')))
				if neg || p.Decide(p.pool.Eq(t, p.pool.Const(8, '+'))) {
					s = s[1:]
				}
			}
			v, er := p.parseUint(s, base, bits-1)
			if neg && er == nil {
				v = fromTerm(p.pool.Bin(OSub, p.pool.Const(64, 0), p.term(v, 64)))
			}
			return Tuple{v, er}
		}
		x, err := strconv.ParseInt(string(p.rawBytes(s)), base, bits)
		if err != nil {
			return Tuple{uint64(x), p.hostErr(err.Error())}
		}
		return Tuple{uint64(x), nil}
	}
	def("strconv.ParseInt", func(p *Path, a []Value) Value {
		return parseInt(p, p.sliceBytes(a[0]), int(int64(p.Concrete(a[1]))), int(p.Concrete(a[2])))
	})
	def("strconv.Atoi", func(p *Path, a []Value) Value { return parseInt(p, p.sliceBytes(a[0]), 10, 64) })
	B := "(*encoding/base64.Encoding)."
	def(B+"EncodeToString", func(p *Path, a []Value) Value { return p.b64enc(a[0], p.sliceBytes(a[1])) })
	def(B+"DecodeString", func(p *Path, a []Value) Value {
		b, e := p.b64dec(a[0], p.sliceBytes(a[1]))
		return Tuple{p.newBytes(b), e}
	})
	def(B+"EncodedLen", func(p *Path, a []Value) Value {
		enc := p.opq(a[0]).v.(*base64.Encoding)
		return uint64(enc.EncodedLen(int(p.Concrete(a[1]))))
	})
	def(B+"DecodedLen", func(p *Path, a []Value) Value {
		enc := p.opq(a[0]).v.(*base64.Encoding)
		return uint64(enc.DecodedLen(int(p.Concrete(a[1]))))
	})
	wr := func(p *Path, d Slice, b []Value) int {
		if len(b) > d.len {
			p.runtimePanic("index out of range")
		}
		for i, x := range b {
			p.store(nil, ElemPtr{d.a, d.off + i}, x)
		}
		return len(b)
	}
	def(B+"Encode", func(p *Path, a []Value) Value {
		wr(p, a[1].(Slice), p.sliceBytes(p.b64enc(a[0], p.sliceBytes(a[2]))))
		return nil
	})
	def(B+"Decode", func(p *Path, a []Value) Value {
		b, e := p.b64dec(a[0], p.sliceBytes(a[2]))
		return Tuple{uint64(wr(p, a[1].(Slice), b)), e}
	})
	def(B+"AppendEncode", func(p *Path, a []Value) Value {
		return p.appendOp([]Value{a[1], p.newBytes(p.sliceBytes(p.b64enc(a[0], p.sliceBytes(a[2]))))}, nil)
	})

	// strings.Builder
	SB := "(*strings.Builder)."
	sbw := func(p *Path, v Value, b []Value) {
		o := p.opq(v)
		old, _ := o.v.([]Value)
		o.v = append(append([]Value{}, old...), b...)
	}
	def(SB+"WriteString", func(p *Path, a []Value) Value {
		b := p.sliceBytes(a[1])
		sbw(p, a[0], b)
		return Tuple{uint64(len(b)), nil}
	})
	def(SB+"Write", func(p *Path, a []Value) Value {
		b := p.sliceBytes(a[1])
		sbw(p, a[0], b)
		return Tuple{uint64(len(b)), nil}
	})
	def(SB+"WriteByte", func(p *Path, a []Value) Value { sbw(p, a[0], []Value{a[1]}); return nil })
	def(SB+"Grow", nop)
	def(SB+"Reset", func(p *Path, a []Value) Value { p.opq(a[0]).v = nil; return nil })
	def(SB+"Len", func(p *Path, a []Value) Value { b, _ := p.opq(a[0]).v.([]Value); return uint64(len(b)) })
	def(SB+"String", func(p *Path, a []Value) Value { b, _ := p.opq(a[0]).v.([]Value); return strVal(b) })

	// sync
	def("(*sync.Mutex).Lock", func(p *Path, a []Value) Value { p.lock(a[0]); return nil })
	def("(*sync.Mutex).Unlock", func(p *Path, a []Value) Value { p.unlock(a[0]); return nil })
	def("(*sync.Mutex).TryLock", func(p *Path, a []Value) Value { return p.tryLock(a[0]) })
	def("(*sync.RWMutex).Lock", func(p *Path, a []Value) Value { p.lock(a[0]); return nil })
	def("(*sync.RWMutex).Unlock", func(p *Path, a []Value) Value { p.unlock(a[0]); return nil })
	def("(*sync.RWMutex).RLock", func(p *Path, a []Value) Value { p.rlock(a[0]); return nil })
	def("(*sync.RWMutex).RUnlock", func(p *Path, a []Value) Value { p.runlock(a[0]); return nil })
	def("(*sync.Once).Do", func(p *Path, a []Value) Value {
		o := p.opq(a[0])
		l, _ := o.v.(*onceV)
		if l == nil {
			l = &onceV{}
			o.v = l
		}
		if l.done {
			if p.races != nil {
				p.races.acquireClk(p, l.clk)
			}
			return nil
		}
		if l.running {
			p.block(func() bool { return l.done })
			return nil
		}
		l.running = true
		defer func() {
			l.done, l.running = true, false
			if p.races != nil {
				l.clk = p.races.releaseClk(p, l.clk)
			}
		}()
		p.call(a[1], nil)
		return nil
	})
	wg := func(p *Path, v Value) *wgV {
		o := p.opq(v)
		l, _ := o.v.(*wgV)
		if l == nil {
			l = &wgV{}
			o.v = l
		}
		return l
	}
	wgAdd := func(p *Path, v Value, n int64) {
		w := wg(p, v)
		w.n += n
		if w.n < 0 {
			p.userPanic("sync: negative WaitGroup counter")
		}
		if p.races != nil {
			w.clk = p.races.releaseClk(p, w.clk)
		}
	}
	def("(*sync.WaitGroup).Add", func(p *Path, a []Value) Value { wgAdd(p, a[0], int64(p.Concrete(a[1]))); return nil })
	def("(*sync.WaitGroup).Done", func(p *Path, a []Value) Value { wgAdd(p, a[0], -1); return nil })
	def("(*sync.WaitGroup).Wait", func(p *Path, a []Value) Value {
		w := wg(p, a[0])
		p.block(func() bool { return w.n == 0 })
		if p.races != nil {
			p.races.acquireClk(p, w.clk)
		}
		return nil
	})
	def("(*sync.WaitGroup).Go", func(p *Path, a []Value) Value {
		wgAdd(p, a[0], 1)
		f, w := a[1], a[0]
		p.spawn(hostFn(func(p *Path, _ []Value) Value { p.call(f, nil); wgAdd(p, w, -1); return nil }), nil)
		return nil
	})

	// sync.Map: a map whose operations are atomic
	anyT := types.NewInterfaceType(nil, nil)
	sm := func(p *Path, v Value, w bool, f func(m *Map) Value) Value {
		o := p.opq(v)
		p.preemptPoint()
		l, _ := o.v.(*smapV)
		if l == nil {
			l = &smapV{m: &Map{idx: map[any]*mapEntry{}, id: p.newID(), et: types.NewMap(anyT, anyT)}}
			o.v = l
		}
		r := p.races
		if r != nil {
			r.acquireClk(p, l.clk)
			if w {
				l.clk = r.releaseClk(p, l.clk)
			}
			r.atomic++
		}
		x := f(l.m)
		if r != nil {
			r.atomic--
		}
		return x
	}
	SM := "(*sync.Map)."
	def(SM+"Load", func(p *Path, a []Value) Value {
		return sm(p, a[0], false, func(m *Map) Value { v, ok := p.mapGet(m, a[1]); return Tuple{v, ok} })
	})
	def(SM+"Store", func(p *Path, a []Value) Value {
		return sm(p, a[0], true, func(m *Map) Value { p.mapSet(m, a[1], a[2]); return nil })
	})
	def(SM+"Swap", func(p *Path, a []Value) Value {
		return sm(p, a[0], true, func(m *Map) Value {
			v, ok := p.mapGet(m, a[1])
			p.mapSet(m, a[1], a[2])
			return Tuple{v, ok}
		})
	})
	def(SM+"LoadOrStore", func(p *Path, a []Value) Value {
		return sm(p, a[0], true, func(m *Map) Value {
			if v, ok := p.mapGet(m, a[1]); ok {
				return Tuple{v, true}
			}
			p.mapSet(m, a[1], a[2])
			return Tuple{a[2], false}
		})
	})
	def(SM+"LoadAndDelete", func(p *Path, a []Value) Value {
		return sm(p, a[0], true, func(m *Map) Value {
			v, ok := p.mapGet(m, a[1])
			p.mapDelete(m, a[1])
			return Tuple{v, ok}
		})
	})
	def(SM+"Delete", func(p *Path, a []Value) Value {
		return sm(p, a[0], true, func(m *Map) Value { p.mapDelete(m, a[1]); return nil })
	})
	def(SM+"CompareAndSwap", func(p *Path, a []Value) Value {
		return sm(p, a[0], true, func(m *Map) Value {
			v, ok := p.mapGet(m, a[1])
			if !ok || !p.mustBool(p.ifaceEq(v, a[2])) {
				return false
			}
			p.mapSet(m, a[1], a[3])
			return true
		})
	})
	def(SM+"CompareAndDelete", func(p *Path, a []Value) Value {
		return sm(p, a[0], true, func(m *Map) Value {
			v, ok := p.mapGet(m, a[1])
			if !ok || !p.mustBool(p.ifaceEq(v, a[2])) {
				return false
			}
			p.mapDelete(m, a[1])
			return true
		})
	})
	def(SM+"Clear", func(p *Path, a []Value) Value {
		return sm(p, a[0], true, func(m *Map) Value {
			m.ent, m.idx, m.n, m.sym = nil, map[any]*mapEntry{}, 0, 0
			return nil
		})
	})
	def(SM+"Range", func(p *Path, a []Value) Value {
		var ent []*mapEntry
		sm(p, a[0], false, func(m *Map) Value { ent = append(ent, m.ent...); return nil })
		for _, e := range ent {
			if !p.mustBool(p.call(a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// sync.Pool: what was put last is got first
	pl := func(p *Path, v Value) *poolV {
		s, ok := v.(*Struct)
		if !ok {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if p.pools == nil {
			p.pools = map[*Struct]*poolV{}
		}
		l := p.pools[s]
		if l == nil {
			l = &poolV{}
			p.pools[s] = l
		}
		return l
	}
	def("(*sync.Pool).Get", func(p *Path, a []Value) Value {
		l := pl(p, a[0])
		p.preemptPoint()
		if n := len(l.x); n > 0 {
			v := l.x[n-1]
			l.x = l.x[:n-1]
			if p.races != nil {
				p.races.acquireClk(p, l.clk)
			}
			return v
		}
		s := a[0].(*Struct)
		nf := s.f[len(s.f)-1] // New
		if nf == nil {
			return nil
		}
		return p.call(nf, nil)
	})
	def("(*sync.Pool).Put", func(p *Path, a []Value) Value {
		if a[1] == nil {
			return nil
		}
		l := pl(p, a[0])
		p.preemptPoint()
		if p.races != nil {
			l.clk = p.races.releaseClk(p, l.clk)
		}
		l.x = append(l.x, a[1])
		return nil
	})

	// atomic.Value
	av := func(p *Path, v Value, w bool, f func(s *Struct) Value) Value {
		s, ok := v.(*Struct)
		if !ok {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		p.preemptPoint()
		if p.pools == nil {
			p.pools = map[*Struct]*poolV{}
		}
		l := p.pools[s]
		if l == nil {
			l = &poolV{}
			p.pools[s] = l
		}
		if p.races != nil {
			p.races.acquireClk(p, l.clk)
			if w {
				l.clk = p.races.releaseClk(p, l.clk)
			}
		}
		return f(s)
	}
	stored := func(p *Path, v Value) Value {
		if v == nil {
			p.userPanic("sync/atomic: store of nil value into Value")
		}
		return v
	}
	def("(*sync/atomic.Value).Load", func(p *Path, a []Value) Value {
		return av(p, a[0], false, func(s *Struct) Value { return s.f[0] })
	})
	def("(*sync/atomic.Value).Store", func(p *Path, a []Value) Value {
		return av(p, a[0], true, func(s *Struct) Value { s.f[0] = stored(p, a[1]); return nil })
	})
	def("(*sync/atomic.Value).Swap", func(p *Path, a []Value) Value {
		return av(p, a[0], true, func(s *Struct) Value { o := s.f[0]; s.f[0] = stored(p, a[1]); return o })
	})
	def("(*sync/atomic.Value).CompareAndSwap", func(p *Path, a []Value) Value {
		return av(p, a[0], true, func(s *Struct) Value {
			if !p.mustBool(p.ifaceEq(s.f[0], a[1])) {
				return false
			}
			s.f[0] = stored(p, a[2])
			return true
		})
	})

	// atomics
	for _, ty := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		ty := ty
		at := func(p *Path, f func() Value) Value {
			p.preemptPoint()
			r := p.races
			if r != nil {
				r.atomic++
			}
			v := f()
			if r != nil {
				r.atomic--
			}
			return v
		}
		def("sync/atomic.Load"+ty.n, func(p *Path, a []Value) Value {
			return at(p, func() Value { p.atomicSync(a[0], false); return p.load(nil, a[0]) })
		})
		def("sync/atomic.Store"+ty.n, func(p *Path, a []Value) Value {
			return at(p, func() Value { p.atomicSync(a[0], true); p.store(nil, a[0], a[1]); return nil })
		})
		def("sync/atomic.Swap"+ty.n, func(p *Path, a []Value) Value {
			return at(p, func() Value {
				p.atomicSync(a[0], true)
				o := p.load(nil, a[0])
				p.store(nil, a[0], a[1])
				return o
			})
		})
		def("sync/atomic.CompareAndSwap"+ty.n, func(p *Path, a []Value) Value {
			return at(p, func() Value {
				p.atomicSync(a[0], true)
				o := p.load(nil, a[0])
				var eq bool
				if ty.w == 0 {
					eq = o == a[1]
				} else {
					eq = p.Decide(p.pool.Eq(p.term(o, ty.w), p.term(a[1], ty.w)))
				}
				if eq {
					p.store(nil, a[0], a[2])
				}
				return eq
			})
		})
		if ty.w > 0 {
			def("sync/atomic.Add"+ty.n, func(p *Path, a []Value) Value {
				return at(p, func() Value {
					p.atomicSync(a[0], true)
					o := p.load(nil, a[0])
					n := fromTerm(p.pool.Bin(OAdd, p.term(o, ty.w), p.term(a[1], ty.w)))
					p.store(nil, a[0], n)
					return n
				})
			})
		}
	}

	// time
	mkTimer := func(p *Path, d Value, fn Value, ch *Chan) *timerV {
		if p.earlier(d, uint64(0)) {
			d = uint64(0)
		}
		t := &timerV{at: p.timeAdd(p.now, d), active: true, fn: fn, ch: ch}
		if p.races != nil {
			t.ev = p.races.add(p, 's', nil) + 1
		}
		p.timers = append(p.timers, t)
		return t
	}
	def("time.AfterFunc", func(p *Path, a []Value) Value {
		return p.newOpq(p.eng.timerT, mkTimer(p, a[0], a[1], nil))
	})
	def("time.NewTimer", func(p *Path, a []Value) Value {
		return p.newOpq(p.eng.timerT, mkTimer(p, a[0], nil, &Chan{cap: 1, id: p.newID()}))
	})
	def("time.After", func(p *Path, a []Value) Value {
		c := &Chan{cap: 1, id: p.newID()}
		mkTimer(p, a[0], nil, c)
		return c
	})
	tm := func(p *Path, v Value) *timerV {
		t, _ := p.opq(v).v.(*timerV)
		if t == nil {
			p.userPanic("time: Stop called on uninitialized Timer")
		}
		return t
	}
	def("(*time.Timer).Stop", func(p *Path, a []Value) Value {
		t := tm(p, a[0])
		o := t.active
		t.active = false
		return o
	})
	def("(*time.Timer).Reset", func(p *Path, a []Value) Value {
		t := tm(p, a[0])
		o := t.active
		t.active = true
		if p.races != nil {
			t.ev = p.races.add(p, 's', nil) + 1
		}
		t.at = p.timeAdd(p.now, a[1])
		return o // go.mod asks for Go 1.14: a tick that was sent stays in the channel
	})
	def("time.Sleep", func(p *Path, a []Value) Value {
		woken := false
		mkTimer(p, a[0], hostFn(func(*Path, []Value) Value { woken = true; return nil }), nil)
		p.block(func() bool { return woken })
		return nil
	})
	epoch := uint64(1 << 40)
	timeV := func(p *Path, ns Value) Value { return &Opaque{typ: p.eng.timeTime, v: ns, id: p.newID()} }
	ns := func(p *Path, v Value) Value {
		if x := p.opq(v).v; x != nil {
			return x
		}
		return uint64(0)
	}
	now := func(p *Path) Value { return p.timeAdd(epoch, p.now) }
	def("time.Now", func(p *Path, a []Value) Value { return timeV(p, now(p)) })
	def("time.Since", func(p *Path, a []Value) Value { return p.timeSub(now(p), ns(p, a[0])) })
	def("time.Until", func(p *Path, a []Value) Value { return p.timeSub(ns(p, a[0]), now(p)) })
	def("(time.Time).Sub", func(p *Path, a []Value) Value { return p.timeSub(ns(p, a[0]), ns(p, a[1])) })
	def("(time.Time).Add", func(p *Path, a []Value) Value { return timeV(p, p.timeAdd(ns(p, a[0]), a[1])) })
	def("(time.Time).After", func(p *Path, a []Value) Value { return p.earlier(ns(p, a[1]), ns(p, a[0])) })
	def("(time.Time).Before", func(p *Path, a []Value) Value { return p.earlier(ns(p, a[0]), ns(p, a[1])) })
	def("(time.Time).Equal", func(p *Path, a []Value) Value {
		return fromTerm(p.pool.Eq(p.term(ns(p, a[0]), 64), p.term(ns(p, a[1]), 64)))
	})
	def("(time.Time).IsZero", func(p *Path, a []Value) Value { return p.opq(a[0]).v == nil })
	def("(time.Time).UnixNano", func(p *Path, a []Value) Value { return ns(p, a[0]) })
}

type onceV struct {
	done, running bool
	clk           VC
}

type smapV struct {
	m   *Map
	clk VC
}

type poolV struct {
	x   []Value
	clk VC
}

type wgV struct {
	n   int64
	clk VC
}

type notIntr struct{}

// notIntrinsic is returned by a conditional intrinsic that declines.
var notIntrinsic Value = notIntr{}

func (p *Path) atomicSync(ptr Value, w bool) {
	if p.races != nil {
		p.races.atomicEv(p, ptr, w)
	}
}
