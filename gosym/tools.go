package main

// Command line tools: copies of the commands with their entry point exported,
// their output and the files they read and write.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var tmpTools string

// toolDir is a temporary directory, removed by cleanTools.
func toolDir() string {
	if tmpTools == "" {
		tmpTools, _ = os.MkdirTemp("", "gosym")
	}
	return tmpTools
}

func cleanTools() {
	if tmpTools != "" {
		os.RemoveAll(tmpTools)
	}
}

// toolFiles adds to files a copy of every command of the repository, as a
// package pkg/internal/verifcmd/<name> with a function Main. It is written to
// a new directory below dir.
func toolFiles(repo, dir string, files map[string]string) error {
	cmds, _ := filepath.Glob(filepath.Join(repo, "cmd", "*"))
	sort.Strings(cmds)
	for _, c := range cmds {
		fs, _ := filepath.Glob(filepath.Join(c, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			raw, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			text, err := exported(f, raw)
			if err != nil {
				return err
			}
			if text == "" {
				continue
			}
			name := filepath.Base(c)
			if err := os.MkdirAll(filepath.Join(dir, "cmd", name), 0o755); err != nil {
				return err
			}
			out := filepath.Join(dir, "cmd", name, filepath.Base(f))
			if err := os.WriteFile(out, []byte(text), 0o644); err != nil {
				return err
			}
			files[filepath.Join(repo, "pkg/internal/verifcmd", name, filepath.Base(f))] = out
		}
	}
	return nil
}

// exported is a source file of a command with package main renamed, main
// exported and os.Exit replaced.
func exported(name string, raw []byte) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, raw, parser.ParseComments)
	if err != nil {
		return "", err
	}
	if f.Name.Name != "main" {
		return "", nil
	}
	type edit struct {
		at, n int
		s     string
	}
	pos := func(p token.Pos) int { return fset.Position(p).Offset }
	edits := []edit{{pos(f.Name.Pos()), 4, "tool"}}
	osName, usesExit := "", false
	for _, im := range f.Imports {
		if im.Path.Value == "\"os\"" {
			osName = "os"
			if im.Name != nil {
				osName = im.Name.Name
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
			edits = append(edits, edit{pos(fd.Name.Pos()), 4, "Main"})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok || s.Sel.Name != "Exit" {
			return true
		}
		if x, ok := s.X.(*ast.Ident); ok && osName != "" && x.Name == osName && x.Obj == nil {
			edits = append(edits, edit{pos(s.Pos()), int(s.End() - s.Pos()), "verifsym.Exit"})
			usesExit = true
		}
		return true
	})
	if usesExit {
		edits = append(edits, edit{pos(f.Name.End()), 0, "; import verifsym \"" + repoP + "pkg/internal/verifh/lib\""})
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
	s := string(raw)
	for _, e := range edits {
		s = s[:e.at] + e.s + s[e.at+e.n:]
	}
	if usesExit {
		s += "\nvar _ = " + osName + ".Exit\n"
	}
	return s, nil
}

// hexText is the text of bytes in base 16.
func (p *Path) hexText(b []Value) Value {
	if p.allConcrete(b) {
		return fmt.Sprintf("%x", p.rawBytes(b))
	}
	return p.opaqueText(&textEntry{kind: "hex", src: append([]Value{}, b...)}, 2*len(b))
}

// text formats like fmt.Sprintf. Bytes that are not known are kept.
func (p *Path) text(format string, args []Value) []Value {
	var out []Value
	ai := 0
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, uint64(s[i]))
		}
	}
	for i := 0; i < len(format); {
		if format[i] != '%' {
			out = append(out, uint64(format[i]))
			i++
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.[]", format[j]) >= 0 {
			j++
		}
		if j >= len(format) || format[j] == '%' || ai >= len(args) {
			if j >= len(format) {
				j = len(format) - 1
			}
			lit(p.goString(p.sprintf(format[i:j+1], nil)))
			i = j + 1
			continue
		}
		a := args[ai]
		ai++
		if b, ok := p.symbolicBytes(a); ok && j == i+1 {
			switch format[j] {
			case 'x':
				out = append(out, p.sliceBytes(p.hexText(b))...)
				i = j + 1
				continue
			case 's', 'v':
				if _, isStr := a.(*Iface).v.(*SymStr); isStr {
					out = append(out, b...)
					i = j + 1
					continue
				}
			}
		}
		if f, _ := a.(*Iface); f != nil && j == i+1 && (format[j] == 'v' || format[j] == 's') {
			name := ""
			if p.hasMethod(f.t, "Error") {
				name = "Error"
			} else if p.hasMethod(f.t, "String") {
				name = "String"
			}
			if _, host := f.v.(hostMethods); name != "" && !host {
				if r, ok := p.callMethod(f, name); ok {
					out = append(out, p.sliceBytes(r)...)
					i = j + 1
					continue
				}
			}
		}
		if e, ok := p.numberText(a); ok && j == i+1 && (format[j] == 'd' || format[j] == 'v') {
			out = append(out, p.sliceBytes(e)...)
			i = j + 1
			continue
		}
		lit(p.goString(p.sprintf(format[i:j+1], []Value{a})))
		i = j + 1
	}
	return out
}

// symbolicBytes: the bytes of a slice, an array or a string that are not known.
func (p *Path) symbolicBytes(a Value) ([]Value, bool) {
	f, ok := a.(*Iface)
	if !ok || f == nil {
		return nil, false
	}
	var b []Value
	switch x := f.v.(type) {
	case Slice:
		if x.a == nil || isAgg(x.a.elem) {
			return nil, false
		}
		b = p.sliceBytes(x)
	case *Array:
		if isAgg(x.elem) {
			return nil, false
		}
		b = x.e
	case *SymStr:
		b = p.sliceBytes(x)
	default:
		return nil, false
	}
	for _, c := range b {
		switch c := c.(type) {
		case uint64:
		case *Term:
			if c.w != 8 {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return b, !p.allConcrete(b)
}

// numberText: the decimal text of a number that is not known and that has no
// text of its own.
func (p *Path) numberText(a Value) (Value, bool) {
	f, ok := a.(*Iface)
	if !ok || f == nil {
		return nil, false
	}
	t, ok := f.v.(*Term)
	if !ok || t.w == 0 {
		return nil, false
	}
	for t.op == OZext {
		t = t.a
	}
	return p.opaqueText(&textEntry{kind: "dec", num: t}, 5), true
}

func (p *Path) emit(b []Value) { p.stdout = append(p.stdout, b...) }

func (p *Path) words(args []Value, ln bool) []Value {
	var out []Value
	for i, a := range args {
		if ln && i > 0 {
			out = append(out, uint64(' '))
		}
		out = append(out, p.text("%v", []Value{a})...)
	}
	if ln {
		out = append(out, uint64('\n'))
	}
	return out
}

const noSuchFile = ": no such file or directory"

// fileV is an open file.
type fileV struct {
	name                       string
	pos                        int
	read, write, atEnd, closed bool
}

func (p *Path) noFile(name Value) Value { return p.hostErr("open " + p.goString(name) + noSuchFile) }

func (p *Path) setFile(n string, b []Value) {
	if p.files == nil {
		p.files = map[string][]Value{}
	}
	p.files[n] = b
}

// file is nil for the standard streams.
func (p *Path) file(v Value) *fileV {
	o, ok := v.(*Opaque)
	if !ok || o.v == nil {
		return nil
	}
	return o.v.(*fileV)
}

func (p *Path) writeFile(v Value, b []Value) Value {
	f := p.file(v)
	if f == nil {
		p.emit(b)
		return Tuple{uint64(len(b)), nil}
	}
	if f.closed || !f.write {
		return Tuple{uint64(0), p.hostErr("write: bad file descriptor")}
	}
	c := append([]Value{}, p.files[f.name]...)
	if f.atEnd {
		f.pos = len(c)
	}
	for _, x := range b {
		if f.pos < len(c) {
			c[f.pos] = x
		} else {
			c = append(c, x)
		}
		f.pos++
	}
	p.setFile(f.name, c)
	return Tuple{uint64(len(b)), nil}
}

func (p *Path) eof() Value {
	g := p.eng.prog.ImportedPackage("io").Var("EOF")
	return p.load(g.Type().(*types.Pointer).Elem(), p.globalAddr(g))
}

func init() {
	done := Tuple{uint64(0), nil}
	def("fmt.Printf", func(p *Path, a []Value) Value { p.emit(p.text(p.goString(a[0]), p.ifaceArgs(a[1]))); return done })
	def("fmt.Print", func(p *Path, a []Value) Value { p.emit(p.words(p.ifaceArgs(a[0]), false)); return done })
	def("fmt.Println", func(p *Path, a []Value) Value { p.emit(p.words(p.ifaceArgs(a[0]), true)); return done })
	fprint := func(p *Path, w Value, b []Value) Value {
		i, ok := w.(*Iface)
		if !ok || i == nil {
			p.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if types.Identical(i.t, types.NewPointer(p.eng.fileT)) {
			return p.writeFile(i.v, b)
		}
		r, ok := p.callMethod(i, "Write", p.newBytes(b))
		if !ok {
			p.unsupported("printing to %v", i.t)
		}
		return r
	}
	def("fmt.Fprintf", func(p *Path, a []Value) Value { return fprint(p, a[0], p.text(p.goString(a[1]), p.ifaceArgs(a[2]))) })
	def("fmt.Fprint", func(p *Path, a []Value) Value { return fprint(p, a[0], p.words(p.ifaceArgs(a[1]), false)) })
	def("fmt.Fprintln", func(p *Path, a []Value) Value { return fprint(p, a[0], p.words(p.ifaceArgs(a[1]), true)) })

	def("encoding/hex.EncodeToString", func(p *Path, a []Value) Value { return p.hexText(p.sliceBytes(a[0])) })
	def("encoding/hex.DecodeString", func(p *Path, a []Value) Value {
		b := p.sliceBytes(a[0])
		if e := p.textOf(b, "hex"); e != nil {
			return Tuple{p.newBytes(append([]Value{}, e.src...)), nil}
		}
		return notIntrinsic
	})

	read := func(p *Path, a []Value) Value {
		b, ok := p.files[p.goString(a[0])]
		if !ok {
			return Tuple{Slice{}, p.noFile(a[0])}
		}
		return Tuple{p.newBytes(append([]Value{}, b...)), nil}
	}
	write := func(p *Path, a []Value) Value {
		n := p.goString(a[0])
		if p.blocked[n] {
			return p.hostErr("open " + n + ": is a directory")
		}
		p.setFile(n, append([]Value{}, p.sliceBytes(a[1])...))
		return nil
	}
	open := func(p *Path, name Value, flag int) Value {
		n := p.goString(name)
		f := &fileV{name: n, write: flag&(os.O_WRONLY|os.O_RDWR) != 0, read: flag&os.O_WRONLY == 0, atEnd: flag&os.O_APPEND != 0}
		if p.blocked[n] && (f.write || flag&os.O_CREATE != 0) {
			return Tuple{nil, p.hostErr("open " + n + ": is a directory")}
		}
		_, ok := p.files[n]
		if ok && flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return Tuple{nil, p.hostErr("open " + n + ": file exists")}
		}
		if !ok {
			if flag&os.O_CREATE == 0 {
				return Tuple{nil, p.noFile(name)}
			}
			p.setFile(n, nil)
		}
		if flag&os.O_TRUNC != 0 {
			p.setFile(n, nil)
		}
		return Tuple{p.newOpq(p.eng.fileT, f), nil}
	}
	def("os.OpenFile", func(p *Path, a []Value) Value { return open(p, a[0], int(p.Concrete(a[1]))) })
	def("os.Open", func(p *Path, a []Value) Value { return open(p, a[0], os.O_RDONLY) })
	def("os.Create", func(p *Path, a []Value) Value { return open(p, a[0], os.O_RDWR|os.O_CREATE|os.O_TRUNC) })
	temp := func(p *Path, a []Value) Value {
		d, pat := p.goString(a[0]), p.goString(a[1])
		if d == "" {
			d = "/tmp"
		}
		star := strings.LastIndex(pat, "*")
		if star < 0 {
			star = len(pat)
			pat += "*"
		}
		return open(p, filepath.Join(d, fmt.Sprintf("%s%d%s", pat[:star], 1000+len(p.files), pat[star+1:])), os.O_RDWR|os.O_CREATE|os.O_EXCL)
	}
	def("os.CreateTemp", temp)
	def("io/ioutil.TempFile", temp)
	def("(*os.File).Write", func(p *Path, a []Value) Value { return p.writeFile(a[0], p.sliceBytes(a[1])) })
	def("(*os.File).WriteString", func(p *Path, a []Value) Value { return p.writeFile(a[0], p.sliceBytes(a[1])) })
	def("(*os.File).Read", func(p *Path, a []Value) Value {
		f := p.file(a[0])
		if f == nil || f.closed || !f.read {
			return Tuple{uint64(0), p.hostErr("read: bad file descriptor")}
		}
		s := a[1].(Slice)
		b := p.files[f.name]
		if f.pos >= len(b) && s.len > 0 {
			return Tuple{uint64(0), p.eof()}
		}
		n := 0
		for n < s.len && f.pos < len(b) {
			s.a.e[s.off+n] = b[f.pos]
			n++
			f.pos++
		}
		return Tuple{uint64(n), nil}
	})
	for _, m := range []string{"Close", "Sync", "Chmod"} {
		m := m
		def("(*os.File)."+m, func(p *Path, a []Value) Value {
			f := p.file(a[0])
			if f == nil {
				return nil
			}
			if f.closed {
				return p.hostErr(m + ": file already closed")
			}
			f.closed = m == "Close"
			return nil
		})
	}
	def("(*os.File).Name", func(p *Path, a []Value) Value {
		if f := p.file(a[0]); f != nil {
			return f.name
		}
		return "/dev/stdout"
	})
	def("os.Rename", func(p *Path, a []Value) Value {
		o, n := p.goString(a[0]), p.goString(a[1])
		b, ok := p.files[o]
		if !ok {
			return p.noFile(a[0])
		}
		if p.blocked[n] {
			return p.hostErr("rename " + o + " " + n + ": file exists")
		}
		delete(p.files, o)
		p.files[n] = b
		return nil
	})
	def("os.Remove", func(p *Path, a []Value) Value {
		n := p.goString(a[0])
		if p.blocked[n] {
			delete(p.blocked, n)
			return nil
		}
		if _, ok := p.files[n]; !ok {
			return p.noFile(a[0])
		}
		delete(p.files, n)
		return nil
	})
	for _, n := range []string{"os.Stat", "os.Lstat"} {
		def(n, func(p *Path, a []Value) Value {
			n := p.goString(a[0])
			if _, ok := p.files[n]; !ok && !p.blocked[n] {
				return Tuple{nil, p.noFile(a[0])}
			}
			return Tuple{nil, nil}
		})
	}
	def("os.IsNotExist", func(p *Path, a []Value) Value {
		i, ok := a[0].(*Iface)
		if !ok || i == nil {
			return false
		}
		h, ok := i.v.(*HostErr)
		return ok && strings.HasSuffix(h.text, noSuchFile)
	})
	def("os.Chmod", func(p *Path, a []Value) Value { return nil })
	for _, pk := range []string{"os", "io/ioutil"} {
		def(pk+".ReadFile", read)
		def(pk+".WriteFile", write)
	}
	def(vsymP+"Scratch", func(p *Path, a []Value) Value { return nil })
	def(vsymP+"Capture", func(p *Path, a []Value) Value { p.stdout = nil; return nil })
	def(vsymP+"Block", func(p *Path, a []Value) Value {
		if p.blocked == nil {
			p.blocked = map[string]bool{}
		}
		p.blocked[p.goString(a[0])] = true
		return nil
	})
	def(vsymP+"Lines", func(p *Path, a []Value) Value {
		var lines []Value
		cur := []Value{}
		for _, b := range p.stdout {
			if c, ok := b.(uint64); ok && c == '\n' {
				lines = append(lines, p.newBytes(cur))
				cur = []Value{}
				continue
			}
			cur = append(cur, b)
		}
		if len(cur) > 0 {
			lines = append(lines, p.newBytes(cur))
		}
		ar := &Array{elem: types.NewSlice(types.Typ[types.Uint8]), e: lines, id: p.newID()}
		return Slice{a: ar, len: len(lines), cap: len(lines)}
	})
}
