package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// JNode is an abstract JSON document. Byte arrays produced by the modelled
// encoder carry one; concrete text is parsed on demand.
type jkind int

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jObj
	jArr
)

type JNode struct {
	kind  jkind
	b     bool
	num   Value  // uint64 or *Term of width 64, two's complement; nil if raw
	raw   string // literal that is no 64-bit integer
	str   Value  // string or *SymStr
	keys  []Value
	elems []*JNode
}

func (p *Path) b64encStd(b []Value) Value {
	if p.allConcrete(b) {
		return base64.StdEncoding.EncodeToString(p.rawBytes(b))
	}
	return p.opaqueText(&textEntry{kind: "b64", src: append([]Value{}, b...), enc: base64.StdEncoding}, base64.StdEncoding.EncodedLen(len(b)))
}

// docBytes makes a byte slice standing for the document's text.
func (p *Path) docBytes(n *JNode) Value {
	if s, ok := n.concrete(p); ok {
		return p.fromRaw([]byte(s))
	}
	const L = 24
	v := p.fresh("doc", 8*L)
	a := &Array{elem: types.Typ[types.Uint8], id: p.newID()}
	for i := 0; i < L; i++ {
		a.e = append(a.e, p.pool.Extract(v, 8*i+7, 8*i))
	}
	p.docs = append(p.docs, docEntry{append([]Value{}, a.e...), n})
	return Slice{a: a, len: L, cap: L}
}

func (n *JNode) concrete(p *Path) (string, bool) {
	switch n.kind {
	case jNull:
		return "null", true
	case jBool:
		return strconv.FormatBool(n.b), true
	case jNum:
		if n.raw != "" {
			return n.raw, true
		}
		if u, ok := n.num.(uint64); ok {
			return strconv.FormatInt(int64(u), 10), true
		}
		return "", false
	case jStr:
		if s, ok := n.str.(string); ok {
			b, _ := json.Marshal(s)
			return string(b), true
		}
		return "", false
	}
	var parts []string
	for i, e := range n.elems {
		s, ok := e.concrete(p)
		if !ok {
			return "", false
		}
		if n.kind == jObj {
			k, ok := n.keys[i].(string)
			if !ok {
				return "", false
			}
			kb, _ := json.Marshal(k)
			s = string(kb) + ":" + s
		}
		parts = append(parts, s)
	}
	if n.kind == jObj {
		return "{" + strings.Join(parts, ",") + "}", true
	}
	return "[" + strings.Join(parts, ",") + "]", true
}

// parseDoc reads a byte slice as a JSON document; nil if it is not valid JSON.
type docEntry struct {
	b []Value
	n *JNode
}

func isSpace(v Value) bool {
	c, ok := v.(uint64)
	return ok && (c == ' ' || c == '\n' || c == '\t' || c == '\r')
}

func (p *Path) parseDoc(v Value) *JNode {
	s, _ := v.(Slice)
	b := p.sliceBytes(v)
	// also with white space around it
	for s.a != nil && len(b) > 0 && isSpace(b[0]) {
		b = b[1:]
	}
	for s.a != nil && len(b) > 0 && isSpace(b[len(b)-1]) {
		b = b[:len(b)-1]
	}
	for _, d := range p.docs {
		if sameBytes(d.b, b) {
			return d.n
		}
	}
	raw := p.rawBytes(b)
	if !json.Valid(raw) {
		return nil
	}
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	n, err := readNode(dec)
	if err != nil {
		return nil
	}
	return n
}

func readNode(dec *json.Decoder) (*JNode, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return &JNode{kind: jNull}, nil
	case bool:
		return &JNode{kind: jBool, b: x}, nil
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return &JNode{kind: jNum, num: uint64(i)}, nil
		}
		return &JNode{kind: jNum, raw: string(x)}, nil
	case string:
		return &JNode{kind: jStr, str: x}, nil
	case json.Delim:
		n := &JNode{kind: jArr}
		if x == '{' {
			n.kind = jObj
		}
		for dec.More() {
			if n.kind == jObj {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				n.keys = append(n.keys, k.(string))
			}
			e, err := readNode(dec)
			if err != nil {
				return nil, err
			}
			n.elems = append(n.elems, e)
		}
		_, err := dec.Token()
		return n, err
	}
	return nil, fmt.Errorf("token")
}

type jfield struct {
	name      string
	idx       int
	omitempty bool
	quoted    bool
}

func jsonFields(t *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(t.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jfield{name: f.Name(), idx: i}
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				jf.omitempty = true
			}
			if o == "string" {
				jf.quoted = true
			}
		}
		out = append(out, jf)
	}
	return out
}

// addrOf-like: a pointer to the aggregate is the aggregate itself.

func (p *Path) jerr(s string) Value { return p.hostErr(s) }

// marshal encodes v of static type t. addr: v is addressable.
func (p *Path) marshal(t types.Type, v Value, addr bool) (*JNode, Value) {
	if ip, ok := t.Underlying().(*types.Interface); ok {
		_ = ip
		ifc, _ := v.(*Iface)
		if ifc == nil {
			return &JNode{kind: jNull}, nil
		}
		return p.marshal(ifc.t, ifc.v, false)
	}
	if n, e, ok := p.marshalVia(t, v, addr); ok {
		return n, e
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v == nil {
			return &JNode{kind: jNull}, nil
		}
		if isAgg(u.Elem()) {
			return p.marshal(u.Elem(), v, true)
		}
		return p.marshal(u.Elem(), p.load(u.Elem(), v), true)
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &JNode{kind: jBool, b: p.mustBool(v)}, nil
		case u.Info()&types.IsString != 0:
			return &JNode{kind: jStr, str: v}, nil
		case u.Info()&types.IsInteger != 0:
			return &JNode{kind: jNum, num: p.to64(t, v)}, nil
		}
	case *types.Struct:
		s := v.(*Struct)
		n := &JNode{kind: jObj}
		for _, f := range jsonFields(u) {
			ft := u.Field(f.idx).Type()
			if f.quoted {
				p.unsupported("json ,string option")
			}
			if f.omitempty && p.emptyVal(ft, s.f[f.idx]) {
				continue
			}
			c, e := p.marshal(ft, s.f[f.idx], addr)
			if e != nil {
				return nil, e
			}
			n.keys = append(n.keys, f.name)
			n.elems = append(n.elems, c)
		}
		return n, nil
	case *types.Slice:
		s := v.(Slice)
		if s.a == nil {
			return &JNode{kind: jNull}, nil
		}
		if w, _ := widthOf(u.Elem()); w == 8 {
			return &JNode{kind: jStr, str: p.b64encStd(p.sliceBytes(s))}, nil
		}
		n := &JNode{kind: jArr}
		for _, e := range p.ifaceArgs(s) {
			c, er := p.marshal(u.Elem(), e, true)
			if er != nil {
				return nil, er
			}
			n.elems = append(n.elems, c)
		}
		return n, nil
	case *types.Array:
		n := &JNode{kind: jArr}
		for _, e := range v.(*Array).e {
			c, er := p.marshal(u.Elem(), e, addr)
			if er != nil {
				return nil, er
			}
			n.elems = append(n.elems, c)
		}
		return n, nil
	case *types.Map:
		if v == nil {
			return &JNode{kind: jNull}, nil
		}
		n := &JNode{kind: jObj}
		for _, e := range v.(*Map).ent {
			if e.dead {
				continue
			}
			k, er := p.marshalKey(u.Key(), e.k)
			if er != nil {
				return nil, er
			}
			c, er := p.marshal(u.Elem(), e.v, false)
			if er != nil {
				return nil, er
			}
			n.keys = append(n.keys, k)
			n.elems = append(n.elems, c)
		}
		return n, nil
	}
	p.unsupported("json.Marshal of %v", t)
	return nil, nil
}

func (p *Path) emptyVal(t types.Type, v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case Slice:
		return x.len == 0
	case *Map:
		return x.n == 0
	case string:
		return x == ""
	case bool:
		return !x
	case uint64:
		return x == 0
	case *Term:
		return p.Decide(p.pool.Eq(x, p.pool.Const(x.w, 0)))
	}
	return false
}

func (p *Path) to64(t types.Type, v Value) Value {
	w, s := widthOf(t)
	if u, ok := v.(uint64); ok {
		if s {
			return uint64(signX(u, w))
		}
		return u
	}
	x := v.(*Term)
	if s {
		return fromTerm(p.pool.Sext(x, 64))
	}
	return fromTerm(p.pool.Zext(x, 64))
}

func (p *Path) marshalKey(t types.Type, v Value) (Value, Value) {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return v, nil
	}
	if p.hasMethod(t, "MarshalText") {
		r := p.invokeOn(t, v, "MarshalText").(Tuple)
		if r[1] != nil {
			return nil, r[1]
		}
		return strVal(p.sliceBytes(r[0])), nil
	}
	if w, _ := widthOf(t); w > 0 {
		return table["strconv.FormatInt"](p, []Value{p.to64(t, v), uint64(10)}), nil
	}
	p.unsupported("json map key %v", t)
	return nil, nil
}

func (p *Path) invokeOn(t types.Type, v Value, name string, args ...Value) Value {
	r, ok := p.callMethod(&Iface{t: t, v: v}, name, args...)
	if !ok {
		p.unsupported("method %s on %v", name, t)
	}
	return r
}

// marshalVia uses MarshalJSON / MarshalText where the type has them.
func (p *Path) marshalVia(t types.Type, v Value, addr bool) (*JNode, Value, bool) {
	mt := t
	_, isPtr := t.Underlying().(*types.Pointer)
	if isPtr && v == nil && (p.hasMethod(t, "MarshalJSON") || p.hasMethod(t, "MarshalText")) {
		return &JNode{kind: jNull}, nil, true
	}
	if !p.hasMethod(t, "MarshalJSON") && addr && !isPtr && isAgg(t) && p.hasMethod(types.NewPointer(t), "MarshalJSON") {
		mt = types.NewPointer(t)
	}
	if p.hasMethod(mt, "MarshalJSON") {
		r := p.invokeOn(mt, p.recvVal(mt, v), "MarshalJSON").(Tuple)
		if r[1] != nil {
			return nil, r[1], true
		}
		n := p.parseDoc(r[0])
		if n == nil {
			return nil, p.jerr("json: error calling MarshalJSON: invalid output"), true
		}
		return n, nil, true
	}
	mt = t
	if !p.hasMethod(t, "MarshalText") && addr && !isPtr && isAgg(t) && p.hasMethod(types.NewPointer(t), "MarshalText") {
		mt = types.NewPointer(t)
	}
	if p.hasMethod(mt, "MarshalText") {
		r := p.invokeOn(mt, p.recvVal(mt, v), "MarshalText").(Tuple)
		if r[1] != nil {
			return nil, r[1], true
		}
		return &JNode{kind: jStr, str: strVal(p.sliceBytes(r[0]))}, nil, true
	}
	return nil, nil, false
}

// recvVal: value receivers of aggregates get a copy.
func (p *Path) recvVal(t types.Type, v Value) Value {
	if isAgg(t) {
		return p.copyAgg(v)
	}
	return v
}

// target is a settable location of type t.
type target struct {
	t   types.Type
	ptr Value // pointer to it, as in p.load/p.store
}

func (p *Path) unmarshal(n *JNode, tg target) Value {
	t := tg.t
	// indirect through pointers, allocating
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.kind == jNull {
			p.store(t, tg.ptr, nil)
			return nil
		}
		cur := p.load(t, tg.ptr)
		if cur == nil {
			if isAgg(pt.Elem()) {
				cur = p.zero(pt.Elem())
			} else {
				cur = &Cell{v: p.zero(pt.Elem()), id: p.newID()}
			}
			p.store(t, tg.ptr, cur)
		}
		return p.unmarshal(n, target{pt.Elem(), cur})
	}
	pt := types.NewPointer(t)
	if p.hasMethod(pt, "UnmarshalJSON") {
		r := p.invokeOn(pt, tg.ptr, "UnmarshalJSON", p.docBytes(n))
		return r
	}
	if p.hasMethod(pt, "UnmarshalText") {
		if n.kind == jNull {
			return nil
		}
		if n.kind != jStr {
			return p.jerr("json: cannot unmarshal into Go value of text type")
		}
		return p.invokeOn(pt, tg.ptr, "UnmarshalText", p.newBytes(p.sliceBytes(n.str)))
	}
	mism := func() Value { return p.jerr("json: cannot unmarshal value into Go value of type " + t.String()) }
	if n.kind == jNull {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Interface:
			p.store(t, tg.ptr, p.zero(t))
		}
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.kind != jBool {
				return mism()
			}
			p.store(t, tg.ptr, n.b)
			return nil
		case u.Info()&types.IsString != 0:
			if n.kind != jStr {
				return mism()
			}
			p.store(t, tg.ptr, n.str)
			return nil
		case u.Info()&types.IsInteger != 0:
			if n.kind != jNum || n.raw != "" {
				return mism()
			}
			w, s := widthOf(t)
			x := p.term(n.num, 64)
			var ok *Term
			if s {
				ok = p.pool.Eq(p.pool.Sext(p.pool.Extract(x, w-1, 0), 64), x)
			} else {
				ok = p.pool.And(p.pool.Cmp(OSle, p.pool.Const(64, 0), x), p.pool.Eq(p.pool.Zext(p.pool.Extract(x, w-1, 0), 64), x))
			}
			if !p.Decide(ok) {
				return mism()
			}
			p.store(t, tg.ptr, fromTerm(p.pool.Extract(x, w-1, 0)))
			return nil
		}
	case *types.Struct:
		if n.kind != jObj {
			return mism()
		}
		s := tg.ptr.(*Struct)
		fs := jsonFields(u)
		var first Value
		for i, kv := range n.keys {
			k, ok := kv.(string)
			if !ok {
				p.unsupported("symbolic object key for a struct")
			}
			best := -1
			for j, f := range fs {
				if f.name == k {
					best = j
					break
				}
				if best < 0 && strings.EqualFold(f.name, k) {
					best = j
				}
			}
			if best < 0 {
				continue
			}
			fi := fs[best].idx
			e := p.unmarshal(n.elems[i], target{u.Field(fi).Type(), p.fieldAddr(s, fi)})
			if e != nil && first == nil {
				first = e
				if !isMismatch(e) {
					return e
				}
			}
		}
		return first
	case *types.Slice:
		if w, _ := widthOf(u.Elem()); w == 8 && n.kind == jStr {
			b, e := p.b64decStd(p.sliceBytes(n.str))
			if e != nil {
				return e
			}
			p.store(t, tg.ptr, p.newBytes(b))
			return nil
		}
		if n.kind != jArr {
			return mism()
		}
		sl := p.makeSlice(u.Elem(), len(n.elems), len(n.elems))
		for i, c := range n.elems {
			if e := p.unmarshal(c, target{u.Elem(), p.elemAddr(sl.a, i)}); e != nil {
				return e
			}
		}
		p.store(t, tg.ptr, sl)
		return nil
	case *types.Map:
		if n.kind != jObj {
			return mism()
		}
		mv := p.load(t, tg.ptr)
		if mv == nil {
			mv = &Map{idx: map[any]*mapEntry{}, id: p.newID(), et: u}
			p.store(t, tg.ptr, mv)
		}
		for i, kv := range n.keys {
			var slot Value
			if isAgg(u.Elem()) {
				slot = p.zero(u.Elem())
			} else {
				slot = &Cell{v: p.zero(u.Elem()), id: p.newID()}
			}
			if e := p.unmarshal(n.elems[i], target{u.Elem(), slot}); e != nil {
				return e
			}
			k, e := p.unmarshalKey(u.Key(), kv)
			if e != nil {
				return e
			}
			p.mapSet(mv, k, p.load(u.Elem(), slot))
		}
		return nil
	case *types.Interface:
		p.unsupported("json into interface")
	}
	p.unsupported("json.Unmarshal into %v", t)
	return nil
}

func isMismatch(e Value) bool {
	i, ok := e.(*Iface)
	if !ok {
		return false
	}
	h, ok := i.v.(*HostErr)
	return ok && strings.HasPrefix(h.text, "json: cannot unmarshal")
}

func (p *Path) b64decStd(s []Value) ([]Value, Value) {
	return p.b64dec(&Opaque{v: base64.StdEncoding}, s)
}

func (p *Path) unmarshalKey(t types.Type, kv Value) (Value, Value) {
	pt := types.NewPointer(t)
	if p.hasMethod(pt, "UnmarshalText") {
		c := &Cell{v: p.zero(t), id: p.newID()}
		if e := p.invokeOn(pt, c, "UnmarshalText", p.newBytes(p.sliceBytes(kv))); e != nil {
			return nil, e
		}
		return c.v, nil
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return kv, nil
	}
	p.unsupported("json map key %v", t)
	return nil, nil
}

// decoderV is a JSON decoder with what it has read and not used.
type decoderV struct {
	r Value
	b []Value
}

func init() {
	m := func(p *Path, a []Value) Value {
		ifc, _ := a[0].(*Iface)
		if ifc == nil {
			return Tuple{p.fromRaw([]byte("null")), nil}
		}
		n, e := p.marshal(ifc.t, ifc.v, false)
		if e != nil {
			return Tuple{Slice{}, e}
		}
		return Tuple{p.docBytes(n), nil}
	}
	def("encoding/json.Marshal", m)
	def("encoding/json.MarshalIndent", m)
	un := func(p *Path, n *JNode, dst Value) Value {
		ifc, _ := dst.(*Iface)
		if ifc == nil || ifc.v == nil {
			return p.jerr("json: Unmarshal(nil)")
		}
		pt, ok := ifc.t.Underlying().(*types.Pointer)
		if !ok {
			return p.jerr("json: Unmarshal(non-pointer)")
		}
		// a pointer that itself implements Unmarshaler is used directly
		return p.unmarshal(n, target{pt.Elem(), ifc.v})
	}
	def("encoding/json.Unmarshal", func(p *Path, a []Value) Value {
		n := p.parseDoc(a[0])
		if n == nil {
			return p.jerr("invalid character in JSON input")
		}
		return un(p, n, a[1])
	})
	field := func(p *Path, v Value, name string) Value {
		s, ok := v.(*Struct)
		if !ok {
			p.unsupported("json stream")
		}
		for i := 0; i < s.typ.NumFields(); i++ {
			if s.typ.Field(i).Name() == name {
				return s.f[i]
			}
		}
		p.unsupported("json stream")
		return nil
	}
	def("(*encoding/json.Encoder).Encode", func(p *Path, a []Value) Value {
		t := m(p, a[1:]).(Tuple)
		if t[1] != nil {
			return t[1]
		}
		w, _ := field(p, a[0], "w").(*Iface)
		if w == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		b := append(append([]Value{}, p.sliceBytes(t[0])...), uint64('\n'))
		r, ok := p.callMethod(w, "Write", p.newBytes(b))
		if !ok {
			p.unsupported("json encoder for %v", w.t)
		}
		return r.(Tuple)[1]
	})
	def("encoding/json.NewDecoder", func(p *Path, a []Value) Value {
		d := p.zero(p.eng.prog.ImportedPackage("encoding/json").Type("Decoder").Type())
		if p.decoders == nil {
			p.decoders = map[Value]*decoderV{}
		}
		p.decoders[d] = &decoderV{r: a[0]}
		return d
	})
	def("(*encoding/json.Decoder).Decode", func(p *Path, a []Value) Value {
		d := p.decoders[a[0]]
		if d == nil {
			p.unsupported("json decoder")
		}
		r, _ := d.r.(*Iface)
		if r == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		// everything there is
		b := d.b
		for {
			buf := p.newBytes(make([]Value, 512))
			for i := range buf.a.e {
				buf.a.e[i] = uint64(0)
			}
			t, ok := p.callMethod(r, "Read", buf)
			if !ok {
				p.unsupported("json decoder for %v", r.t)
			}
			n := int(p.Concrete(t.(Tuple)[0]))
			b = append(b, buf.a.e[:n]...)
			if e := t.(Tuple)[1]; e != nil {
				if !p.errorsIs(e, p.eof()) {
					return e
				}
				break
			}
		}
		for len(b) > 0 && isSpace(b[0]) {
			b = b[1:]
		}
		if len(b) == 0 {
			return p.eof()
		}
		// the first value in it
		end := 0
		for _, d := range p.docs {
			if len(d.b) <= len(b) && len(d.b) > end && sameBytes(d.b, b[:len(d.b)]) {
				end = len(d.b)
			}
		}
		if end == 0 {
			raw := p.rawBytes(b)
			dec := json.NewDecoder(bytes.NewReader(raw))
			var x json.RawMessage
			if err := dec.Decode(&x); err != nil {
				return p.hostErr(err.Error())
			}
			end = int(dec.InputOffset())
		}
		d.b = b[end:]
		return un(p, p.parseDoc(p.newBytes(append([]Value{}, b[:end]...))), a[1])
	})
	def("(*encoding/json.Decoder).DisallowUnknownFields", func(p *Path, a []Value) Value {
		p.unsupported("json decoder options")
		return nil
	})
	def("encoding/json.Valid", func(p *Path, a []Value) Value { return p.parseDoc(a[0]) != nil })
}
