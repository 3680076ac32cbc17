// Package llvm is the C front end: it parses textual LLVM IR (produced by
// clang from the current C sources) and translates it to vm code.
package llvm

import (
	"fmt"
	"strconv"
	"strings"
)

type Type struct {
	K     string // int, ptr, array, struct, void, named, other
	W     int    // int width
	N     int    // array length
	Elem  *Type
	Els   []*Type
	Pack  bool
	Name  string
	Spell string
}

// Operand is a typed value: a register, a constant or an aggregate constant.
type Operand struct {
	T   *Type
	K   string // reg, int, null, undef, zero, global, agg, gep, str
	S   string
	V   uint64
	Els []*Operand // aggregate elements, or gep operands (base first)
	Src *Type      // gep source type
}

type Inst struct {
	Op    string
	Dst   string
	T     *Type // result or main type
	Pred  string
	Ops   []*Operand
	Labs  []string
	Cases []uint64
	Line  int
}

type Block struct {
	Name string
	Ins  []*Inst
}

type Function struct {
	Name     string
	Ret      *Type
	Params   []string
	PTypes   []*Type
	Blocks   []*Block
	Internal bool
	Mod      *Module
	// unsupported is set when the body could not be parsed.
	Unsupported string
}

type Global struct {
	Name     string
	T        *Type
	Init     *Operand
	Const    bool
	Internal bool
	Mod      *Module
}

type Module struct {
	Name    string
	Types   map[string]*Type
	Funcs   map[string]*Function
	Globals map[string]*Global
}

type perr string

type parser struct {
	toks []string
	i    int
	mod  *Module
}

func tokenize(l string) []string {
	var out []string
	i := 0
	isW := func(c byte) bool {
		return c == '_' || c == '.' || c == '-' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i < len(l) {
		c := l[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == ';':
			return out
		case c == '"' || (c == 'c' || c == '%' || c == '@') && i+1 < len(l) && l[i+1] == '"':
			j := i + 1
			if c != '"' {
				j++
			}
			for j < len(l) && l[j] != '"' {
				j++
			}
			t := l[i : j+1]
			if c == '%' || c == '@' {
				t = string(c) + t[2:len(t)-1]
			}
			out = append(out, t)
			i = j + 1
		case c == '%' || c == '@' || c == '!' || c == '#':
			j := i + 1
			for j < len(l) && isW(l[j]) {
				j++
			}
			out = append(out, l[i:j])
			i = j
		case isW(c):
			j := i + 1
			for j < len(l) && isW(l[j]) {
				j++
			}
			if j < len(l) && l[j] == ':' {
				j++
			}
			out = append(out, l[i:j])
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func (p *parser) fail(f string, a ...any) { panic(perr(fmt.Sprintf(f, a...))) }
func (p *parser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}
func (p *parser) next() string {
	t := p.peek()
	p.i++
	return t
}
func (p *parser) accept(t string) bool {
	if p.peek() == t {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(t string) {
	if !p.accept(t) {
		p.fail("expected %q, found %q", t, p.peek())
	}
}

func (p *parser) typ() *Type {
	t := p.next()
	switch {
	case t == "ptr":
		r := &Type{K: "ptr"}
		if p.accept("addrspace") {
			p.fail("address space")
		}
		return r
	case t == "void":
		return &Type{K: "void"}
	case len(t) > 1 && t[0] == 'i' && t[1] >= '0' && t[1] <= '9':
		w, err := strconv.Atoi(t[1:])
		if err != nil {
			p.fail("type %s", t)
		}
		return &Type{K: "int", W: w}
	case t == "[":
		n, err := strconv.Atoi(p.next())
		if err != nil {
			p.fail("array length")
		}
		p.expect("x")
		e := p.typ()
		p.expect("]")
		return &Type{K: "array", N: n, Elem: e}
	case t == "{":
		return p.structBody(false)
	case t == "<":
		if p.accept("{") {
			r := p.structBody(true)
			p.expect(">")
			return r
		}
		n, _ := strconv.Atoi(p.next())
		p.expect("x")
		e := p.typ()
		p.expect(">")
		return &Type{K: "other", N: n, Elem: e, Spell: "vector"}
	case strings.HasPrefix(t, "%"):
		return &Type{K: "named", Name: t}
	case t == "label" || t == "metadata" || t == "float" || t == "double" || t == "token" || t == "x86_fp80" || t == "opaque":
		return &Type{K: "other", Spell: t}
	}
	p.fail("type %q", t)
	return nil
}

func (p *parser) structBody(pack bool) *Type {
	r := &Type{K: "struct", Pack: pack}
	for !p.accept("}") {
		r.Els = append(r.Els, p.typ())
		p.accept(",")
	}
	return r
}

var paramAttrs = map[string]bool{"noundef": true, "nonnull": true, "nocapture": true, "readonly": true, "writeonly": true, "noalias": true, "zeroext": true, "signext": true, "immarg": true, "returned": true, "inreg": true, "nofree": true, "readnone": true, "nest": true, "swiftself": true, "allocptr": true, "writable": true}

func (p *parser) skipParamAttrs() {
	for {
		t := p.peek()
		switch {
		case paramAttrs[t]:
			p.i++
		case t == "align":
			p.i++
			if p.accept("(") {
				p.i++
				p.expect(")")
			} else {
				p.i++
			}
		case t == "dereferenceable" || t == "dereferenceable_or_null" || t == "range" || t == "captures" || t == "initializes" || t == "memory" || t == "allocsize":
			p.i++
			p.skipParens()
		case t == "byval" || t == "sret" || t == "byref" || t == "inalloca" || t == "preallocated" || t == "elementtype":
			p.fail("parameter attribute %s", t)
		default:
			return
		}
	}
}

func (p *parser) skipParens() {
	p.expect("(")
	d := 1
	for d > 0 {
		switch p.next() {
		case "(":
			d++
		case ")":
			d--
		case "":
			p.fail("unbalanced parentheses")
		}
	}
}

// value parses a value of type t.
func (p *parser) value(t *Type) *Operand {
	tok := p.next()
	o := &Operand{T: t}
	switch {
	case strings.HasPrefix(tok, "%"):
		o.K, o.S = "reg", tok
	case strings.HasPrefix(tok, "@"):
		o.K, o.S = "global", tok[1:]
	case tok == "null":
		o.K = "null"
	case tok == "true":
		o.K, o.V = "int", 1
	case tok == "false":
		o.K = "int"
	case tok == "undef" || tok == "poison":
		o.K = "undef"
	case tok == "zeroinitializer":
		o.K = "zero"
	case tok == "[" || tok == "{":
		end := map[string]string{"[": "]", "{": "}"}[tok]
		o.K = "agg"
		for !p.accept(end) {
			et := p.typ()
			o.Els = append(o.Els, p.value(et))
			p.accept(",")
		}
	case tok == "<":
		p.expect("{")
		o.K = "agg"
		for !p.accept("}") {
			et := p.typ()
			o.Els = append(o.Els, p.value(et))
			p.accept(",")
		}
		p.expect(">")
	case strings.HasPrefix(tok, "c\""):
		o.K, o.S = "str", unescape(tok[2:len(tok)-1])
	case tok == "getelementptr":
		for p.peek() == "inbounds" || p.peek() == "nuw" || p.peek() == "nusw" {
			p.i++
		}
		p.expect("(")
		o.K = "gep"
		o.Src = p.typ()
		for p.accept(",") {
			p.accept("inrange")
			et := p.typ()
			o.Els = append(o.Els, p.value(et))
		}
		p.expect(")")
	default:
		if tok != "" && (tok[0] == '-' || tok[0] >= '0' && tok[0] <= '9') {
			if t.K != "int" {
				p.fail("constant %s of type %s", tok, t.K)
			}
			if tok[0] == '-' {
				v, err := strconv.ParseInt(tok, 10, 64)
				if err != nil {
					p.fail("constant %s", tok)
				}
				o.K, o.V = "int", uint64(v)
				return o
			}
			v, err := strconv.ParseUint(tok, 10, 64)
			if err != nil {
				p.fail("constant %s", tok)
			}
			o.K, o.V = "int", v
			return o
		}
		p.fail("value %q", tok)
	}
	return o
}

func unescape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+2 < len(s) {
			v, _ := strconv.ParseUint(s[i+1:i+3], 16, 8)
			b = append(b, byte(v))
			i += 2
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}

func (p *parser) typed() *Operand {
	t := p.typ()
	p.skipParamAttrs()
	if t.K == "other" && t.Spell == "metadata" {
		// skip the metadata operand
		for p.peek() != "," && p.peek() != ")" && p.peek() != "" {
			if p.peek() == "(" {
				p.skipParens()
				continue
			}
			p.i++
		}
		return &Operand{T: t, K: "undef"}
	}
	return p.value(t)
}

var instFlags = map[string]bool{"nuw": true, "nsw": true, "exact": true, "disjoint": true, "nneg": true, "inbounds": true, "nusw": true, "volatile": true, "samesign": true}

func (p *parser) flags() {
	for instFlags[p.peek()] {
		p.i++
	}
}

func (p *parser) label() string {
	p.expect("label")
	return p.next()
}

func (p *parser) inst() *Inst {
	in := &Inst{}
	if strings.HasPrefix(p.peek(), "%") {
		in.Dst = p.next()
		p.expect("=")
	}
	op := p.next()
	for op == "tail" || op == "musttail" || op == "notail" {
		op = p.next()
	}
	in.Op = op
	switch op {
	case "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor":
		p.flags()
		in.T = p.typ()
		in.Ops = append(in.Ops, p.value(in.T))
		p.expect(",")
		in.Ops = append(in.Ops, p.value(in.T))
	case "icmp":
		p.flags()
		in.Pred = p.next()
		t := p.typ()
		in.T = &Type{K: "int", W: 1}
		in.Ops = append(in.Ops, p.value(t))
		p.expect(",")
		in.Ops = append(in.Ops, p.value(t))
	case "load":
		if p.accept("atomic") {
			p.fail("atomic load")
		}
		p.flags()
		in.T = p.typ()
		p.expect(",")
		in.Ops = append(in.Ops, p.typed())
	case "store":
		if p.accept("atomic") {
			p.fail("atomic store")
		}
		p.flags()
		in.Ops = append(in.Ops, p.typed())
		p.expect(",")
		in.Ops = append(in.Ops, p.typed())
	case "getelementptr":
		p.flags()
		in.T = p.typ()
		for p.accept(",") {
			if strings.HasPrefix(p.peek(), "!") {
				break
			}
			in.Ops = append(in.Ops, p.typed())
		}
	case "alloca":
		p.accept("inalloca")
		in.T = p.typ()
		if p.accept(",") && p.peek() != "align" && !strings.HasPrefix(p.peek(), "!") {
			in.Ops = append(in.Ops, p.typed())
		}
	case "br":
		if p.peek() == "label" {
			in.Labs = []string{p.label()}
			break
		}
		in.Ops = append(in.Ops, p.typed())
		p.expect(",")
		a := p.label()
		p.expect(",")
		in.Labs = []string{a, p.label()}
	case "switch":
		in.Ops = append(in.Ops, p.typed())
		p.expect(",")
		in.Labs = []string{p.label()}
		p.expect("[")
		for !p.accept("]") {
			c := p.typed()
			p.expect(",")
			in.Cases = append(in.Cases, c.V)
			in.Labs = append(in.Labs, p.label())
		}
	case "ret":
		t := p.typ()
		if t.K != "void" {
			in.Ops = append(in.Ops, p.value(t))
		}
	case "unreachable":
	case "phi":
		in.T = p.typ()
		for {
			p.expect("[")
			in.Ops = append(in.Ops, p.value(in.T))
			p.expect(",")
			in.Labs = append(in.Labs, p.next())
			p.expect("]")
			if !p.accept(",") || p.peek() != "[" {
				break
			}
		}
	case "select":
		in.Ops = append(in.Ops, p.typed())
		p.expect(",")
		in.Ops = append(in.Ops, p.typed())
		p.expect(",")
		in.Ops = append(in.Ops, p.typed())
		in.T = in.Ops[1].T
	case "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze":
		p.flags()
		in.Ops = append(in.Ops, p.typed())
		if op == "freeze" {
			in.T = in.Ops[0].T
			break
		}
		p.expect("to")
		in.T = p.typ()
	case "call":
		for p.peek() == "fastcc" || p.peek() == "ccc" {
			p.i++
		}
		p.skipParamAttrs()
		in.T = p.typ()
		if p.peek() == "(" { // function type of a variadic callee
			p.skipParens()
		}
		ft := &Type{K: "ptr"}
		if p.peek() == "asm" {
			p.fail("inline assembly")
		}
		in.Ops = append(in.Ops, p.value(ft))
		p.expect("(")
		for !p.accept(")") {
			in.Ops = append(in.Ops, p.typed())
			p.accept(",")
		}
	default:
		p.fail("instruction %s", op)
	}
	return in
}

// Parse reads a module.
func Parse(name, text string) (m *Module, err error) {
	m = &Module{Name: name, Types: map[string]*Type{}, Funcs: map[string]*Function{}, Globals: map[string]*Global{}}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				err = fmt.Errorf("%s: %s", name, string(e))
				return
			}
			panic(r)
		}
	}()
	lines := strings.Split(text, "\n")
	for li := 0; li < len(lines); li++ {
		l := lines[li]
		switch {
		case strings.HasPrefix(l, "%"):
			p := &parser{toks: tokenize(l), mod: m}
			n := p.next()
			p.expect("=")
			p.expect("type")
			m.Types[n] = p.typ()
		case strings.HasPrefix(l, "@"):
			m.global(l)
		case strings.HasPrefix(l, "define "):
			f := m.header(l)
			m.Funcs[f.Name] = f
			var cur *Block
			for li++; li < len(lines) && lines[li] != "}"; li++ {
				toks := tokenize(lines[li])
				if len(toks) == 0 {
					continue
				}
				if strings.HasSuffix(toks[0], ":") && !strings.HasPrefix(lines[li], " ") {
					cur = &Block{Name: "%" + strings.Trim(strings.TrimSuffix(toks[0], ":"), "\"")}
					f.Blocks = append(f.Blocks, cur)
					continue
				}
				if toks[0] == "switch" {
					for toks[len(toks)-1] != "]" && !has(toks, "]") {
						li++
						toks = append(toks, tokenize(lines[li])...)
					}
				}
				if cur == nil {
					cur = &Block{Name: fmt.Sprintf("%%%d", len(f.Params))}
					f.Blocks = append(f.Blocks, cur)
				}
				if f.Unsupported != "" {
					continue
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							e, ok := r.(perr)
							if !ok {
								panic(r)
							}
							f.Unsupported = fmt.Sprintf("%s line %d: %s", f.Name, li+1, string(e))
						}
					}()
					in := (&parser{toks: toks, mod: m}).inst()
					in.Line = li + 1
					cur.Ins = append(cur.Ins, in)
				}()
			}
		}
	}
	return m, nil
}

func has(ts []string, t string) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

var linkage = map[string]bool{"private": true, "internal": true, "external": true, "common": true, "weak": true, "linkonce_odr": true, "weak_odr": true, "linkonce": true, "available_externally": true, "dso_local": true, "unnamed_addr": true, "local_unnamed_addr": true, "hidden": true, "protected": true, "default": true, "fastcc": true, "ccc": true}

func (m *Module) global(l string) {
	p := &parser{toks: tokenize(l), mod: m}
	g := &Global{Name: p.next()[1:], Mod: m}
	p.expect("=")
	ext := false
	for linkage[p.peek()] {
		t := p.next()
		if t == "private" || t == "internal" {
			g.Internal = true
		}
		if t == "external" {
			ext = true
		}
	}
	if p.peek() != "global" && p.peek() != "constant" {
		return // alias, ifunc, thread-local: unresolved if used
	}
	g.Const = p.next() == "constant"
	g.T = p.typ()
	if !ext {
		g.Init = p.value(g.T)
	}
	m.Globals[g.Name] = g
}

func (m *Module) header(l string) *Function {
	p := &parser{toks: tokenize(l), mod: m}
	p.expect("define")
	f := &Function{Mod: m}
	for linkage[p.peek()] {
		t := p.next()
		if t == "internal" || t == "private" {
			f.Internal = true
		}
	}
	p.skipParamAttrs()
	f.Ret = p.typ()
	f.Name = p.next()[1:]
	p.expect("(")
	n := 0
	for !p.accept(")") {
		if p.accept(".") { // variadic
			f.Unsupported = "variadic function"
			for p.peek() != ")" {
				p.i++
			}
			continue
		}
		t := p.typ()
		func() {
			defer func() {
				if r := recover(); r != nil {
					f.Unsupported = fmt.Sprint(r)
					for p.peek() != "," && p.peek() != ")" && p.peek() != "" {
						p.i++
					}
				}
			}()
			p.skipParamAttrs()
		}()
		nm := fmt.Sprintf("%%%d", n)
		if strings.HasPrefix(p.peek(), "%") {
			nm = p.next()
		}
		f.Params = append(f.Params, nm)
		f.PTypes = append(f.PTypes, t)
		n++
		p.accept(",")
	}
	return f
}

// resolve follows named types.
func (m *Module) resolve(t *Type) *Type {
	for t.K == "named" {
		n := m.Types[t.Name]
		if n == nil {
			panic(perr("unknown type " + t.Name))
		}
		t = n
	}
	return t
}

// size and alignment for a 64-bit target with natural alignment.
func (m *Module) layout(t *Type) (size, align int64) {
	t = m.resolve(t)
	switch t.K {
	case "int":
		n := int64(1)
		for n*8 < int64(t.W) {
			n *= 2
		}
		if n > 8 {
			panic(perr("wide integer"))
		}
		return n, n
	case "ptr":
		return 8, 8
	case "array":
		s, a := m.layout(t.Elem)
		return s * int64(t.N), a
	case "struct":
		var off, al int64 = 0, 1
		for _, e := range t.Els {
			s, a := m.layout(e)
			if t.Pack {
				a = 1
			}
			off = (off + a - 1) / a * a
			off += s
			if a > al {
				al = a
			}
		}
		return (off + al - 1) / al * al, al
	}
	panic(perr("layout of type " + t.K + t.Spell))
}

func (m *Module) field(t *Type, k int) (int64, *Type) {
	var off int64
	for i, e := range t.Els {
		s, a := m.layout(e)
		if t.Pack {
			a = 1
		}
		off = (off + a - 1) / a * a
		if i == k {
			return off, e
		}
		off += s
	}
	panic(perr("field index"))
}
