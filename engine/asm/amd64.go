package asm

import (
	"strings"

	"verif/engine/term"
	"verif/engine/vm"
)

// registers: 0-15 general, 16-19 flags, then 16 vector registers of 4 lanes
const (
	fZF = 16 + iota
	fCF
	fSF
	fOF
	amdVec
	amdRegs = amdVec + 64
)

const (
	rSP = 4
	rBP = 5
)

var amdGPR = map[string]struct {
	n    int
	w    uint8
	high bool
}{}

var amdNames = []string{"rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"}

func init() {
	put := func(s string, n int, w uint8, high bool) {
		amdGPR[s] = struct {
			n    int
			w    uint8
			high bool
		}{n, w, high}
	}
	for i, n := range amdNames {
		put(n, i, 64, false)
		if i < 8 {
			b := n[1:]
			put("e"+b, i, 32, false)
			put(b, i, 16, false)
			if i < 4 {
				put(b[:1]+"l", i, 8, false)
				put(b[:1]+"h", i, 8, true)
			} else {
				put(b+"l", i, 8, false)
			}
		} else {
			put(n+"d", i, 32, false)
			put(n+"w", i, 16, false)
			put(n+"b", i, 8, false)
		}
	}
}

func (x *X) amdEntry(c *call, sp vm.Ptr, init Regs) []vm.Value {
	rs := make([]vm.Value, amdRegs)
	for i, n := range amdNames {
		rs[i] = init(n, 0, 64)
	}
	rs[rSP] = sp
	for i := fZF; i <= fOF; i++ {
		rs[i] = undef{"flags on entry"}
	}
	for i := 0; i < 16; i++ {
		for l := 0; l < 4; l++ {
			rs[amdVec+4*i+l] = init("x"+itoa(i), l, 32)
		}
	}
	c.preg[rSP], c.preg[rBP] = sp, rs[rBP]
	return rs
}

func itoa(i int) string {
	if i >= 10 {
		return string(rune('0'+i/10)) + string(rune('0'+i%10))
	}
	return string(rune('0' + i))
}

func (x *X) amdRet(c *call, s *vm.State) bool {
	x.M.Assert(s, "asm.stack-restored", x.C.Bool(s.Regs[rSP] == vm.Value(c.preg[rSP])))
	if s.Regs[rSP] != vm.Value(c.preg[rSP]) {
		return false
	}
	x.same(c, s, "asm.frame-pointer-restored", s.Regs[rBP], c.preg[rBP])
	w, ok := x.M.LoadWord(s, c.preg[rSP].(vm.Ptr))
	if ok {
		x.same(c, s, "asm.return-address-kept", w, c.retTok)
	}
	return true
}

func (x *X) same(c *call, s *vm.State, id string, a, b vm.Value) {
	ta, ok1 := a.(*term.Term)
	tb, ok2 := b.(*term.Term)
	if ok1 && ok2 {
		x.M.Assert(s, id, x.C.Eq(ta, tb))
		return
	}
	x.M.Assert(s, id, x.C.Bool(a == b))
}

func (c *call) flag(s *vm.State, i int) *term.Term {
	if t, ok := s.Regs[i].(*term.Term); ok {
		return t
	}
	vm.Unsupported("undetermined flag (%s)", c.x.M.Where)
	return nil
}

func (x *X) amdCond(in Inst) func(c *call, s *vm.State) *term.Term {
	C := x.C
	cc := strings.TrimPrefix(in.Op, "j")
	neg := false
	if strings.HasPrefix(cc, "n") {
		neg, cc = true, cc[1:]
	}
	var f func(c *call, s *vm.State) *term.Term
	switch cc {
	case "e", "z":
		f = func(c *call, s *vm.State) *term.Term { return c.flag(s, fZF) }
	case "b", "c":
		f = func(c *call, s *vm.State) *term.Term { return c.flag(s, fCF) }
	case "ae":
		f = func(c *call, s *vm.State) *term.Term { return C.Not(c.flag(s, fCF)) }
	case "be":
		f = func(c *call, s *vm.State) *term.Term { return C.Or(c.flag(s, fCF), c.flag(s, fZF)) }
	case "a":
		f = func(c *call, s *vm.State) *term.Term { return C.Not(C.Or(c.flag(s, fCF), c.flag(s, fZF))) }
	case "s":
		f = func(c *call, s *vm.State) *term.Term { return c.flag(s, fSF) }
	case "l":
		f = func(c *call, s *vm.State) *term.Term { return C.Xor(c.flag(s, fSF), c.flag(s, fOF)) }
	case "ge":
		f = func(c *call, s *vm.State) *term.Term { return C.Not(C.Xor(c.flag(s, fSF), c.flag(s, fOF))) }
	case "le":
		f = func(c *call, s *vm.State) *term.Term {
			return C.Or(c.flag(s, fZF), C.Xor(c.flag(s, fSF), c.flag(s, fOF)))
		}
	case "g":
		f = func(c *call, s *vm.State) *term.Term {
			return C.Not(C.Or(c.flag(s, fZF), C.Xor(c.flag(s, fSF), c.flag(s, fOF))))
		}
	default:
		return func(c *call, s *vm.State) *term.Term {
			vm.Unsupported("condition %s", in.Text)
			return nil
		}
	}
	if neg {
		return func(c *call, s *vm.State) *term.Term { return C.Not(f(c, s)) }
	}
	return f
}

// operand is a decoded x86 operand.
type operand struct {
	kind  byte // r general, x vector, m memory, i immediate
	reg   int
	w     uint8 // width in bits
	high  bool
	imm   int64
	base  int // -1: none
	index int
	scale int64
	disp  int64
	abs   bool
}

var memW = map[string]uint8{"byte": 8, "word": 16, "dword": 32, "qword": 64, "xmmword": 128}

func amdOperand(in Inst, a string) (o operand, ok bool) {
	if g, ok := amdGPR[a]; ok {
		return operand{kind: 'r', reg: g.n, w: g.w, high: g.high}, true
	}
	if strings.HasPrefix(a, "xmm") && !strings.HasPrefix(a, "xmmword") {
		n, ok := parseNum(a[3:])
		return operand{kind: 'x', reg: int(n), w: 128}, ok && n < 16
	}
	if v, ok := parseNum(a); ok {
		return operand{kind: 'i', imm: v}, true
	}
	o = operand{kind: 'm', base: -1, index: -1, scale: 1}
	if i := strings.Index(a, " ptr "); i >= 0 {
		w, ok := memW[a[:i]]
		if !ok {
			return o, false
		}
		o.w = w
		a = a[i+5:]
	}
	if !strings.HasPrefix(a, "[") || !strings.HasSuffix(a, "]") {
		return o, false
	}
	a = strings.ReplaceAll(a[1:len(a)-1], "- ", "+ -")
	for _, p := range strings.Split(a, "+") {
		p = strings.TrimSpace(p)
		if p == "rip" {
			if in.Abs == 0 {
				return o, false
			}
			o.abs, o.disp = true, int64(in.Abs)
			return o, true
		}
		if i := strings.IndexByte(p, '*'); i >= 0 {
			l, r := strings.TrimSpace(p[:i]), strings.TrimSpace(p[i+1:])
			if _, isReg := amdGPR[l]; !isReg {
				l, r = r, l
			}
			g, ok1 := amdGPR[l]
			v, ok2 := parseNum(r)
			if !ok1 || !ok2 || g.w != 64 {
				return o, false
			}
			o.index, o.scale = g.n, v
			continue
		}
		if g, ok := amdGPR[p]; ok {
			if g.w != 64 {
				return o, false
			}
			if o.base < 0 {
				o.base = g.n
			} else {
				o.index = g.n
			}
			continue
		}
		v, ok := parseNum(p)
		if !ok {
			return o, false
		}
		o.disp += v
	}
	return o, true
}

func (c *call) ea(s *vm.State, o operand) vm.Value {
	x := c.x
	var v vm.Value = x.C.Const(64, uint64(o.disp))
	if o.base >= 0 {
		v = x.add(s.Regs[o.base], v)
	}
	if o.index >= 0 {
		t, ok := s.Regs[o.index].(*term.Term)
		if p, isP := s.Regs[o.index].(vm.Ptr); isP && o.scale == 1 {
			v = x.add(p, v)
		} else if ok {
			v = x.add(v, x.C.Mul(t, x.C.Const(64, uint64(o.scale))))
		} else {
			vm.Unsupported("address arithmetic (%s)", x.M.Where)
		}
	}
	return v
}

func gterm(x *X, v vm.Value) *term.Term {
	if t, ok := norm(v, x.C).(*term.Term); ok {
		return t
	}
	vm.Unsupported("arithmetic on an address (%s)", x.M.Where)
	return nil
}

// get reads a general operand of width w.
func (c *call) get(s *vm.State, o operand, w uint8) (vm.Value, bool) {
	x := c.x
	switch o.kind {
	case 'r':
		v := s.Regs[o.reg]
		if o.w == 64 {
			return v, true
		}
		t := gterm(x, v)
		if o.high {
			return x.C.Extract(t, 15, 8), true
		}
		return x.C.Extract(t, o.w-1, 0), true
	case 'i':
		return x.C.Const(w, uint64(o.imm)), true
	case 'm':
		p := c.at(c.ea(s, o))
		if o.w == 64 {
			return x.M.LoadWord(s, p)
		}
		return x.M.LoadTerm(s, p, int(o.w/8))
	}
	vm.Unsupported("operand (%s)", x.M.Where)
	return nil, false
}

func (c *call) put(s *vm.State, o operand, v vm.Value) bool {
	x := c.x
	switch o.kind {
	case 'r':
		switch {
		case o.w == 64:
			s.Regs[o.reg] = norm(v, x.C)
		case o.w == 32:
			s.Regs[o.reg] = x.C.ZExt(v.(*term.Term), 64)
		default:
			old := gterm(x, s.Regs[o.reg])
			if o.high {
				s.Regs[o.reg] = x.C.Concat(x.C.Extract(old, 63, 16), v.(*term.Term), x.C.Extract(old, 7, 0))
			} else {
				s.Regs[o.reg] = x.C.Concat(x.C.Extract(old, 63, o.w), v.(*term.Term))
			}
		}
		return true
	case 'm':
		return x.M.StoreVal(s, c.at(c.ea(s, o)), v, int(o.w/8))
	}
	vm.Unsupported("operand (%s)", x.M.Where)
	return false
}

func (c *call) getX(s *vm.State, o operand, align bool) (v vec, ok bool) {
	switch o.kind {
	case 'x':
		for i := range v {
			v[i] = s.Regs[amdVec+4*o.reg+i].(*term.Term)
		}
		return v, true
	case 'm':
		p := c.at(c.ea(s, o))
		n := int(o.w / 8)
		if n == 0 {
			n = 16
		}
		if align && !c.aligned(s, p, 16) {
			return v, false
		}
		return c.x.loadVec(s, p, n)
	}
	vm.Unsupported("operand (%s)", c.x.M.Where)
	return
}

func (c *call) putX(s *vm.State, o operand, v vec, align bool) bool {
	switch o.kind {
	case 'x':
		for i := range v {
			s.Regs[amdVec+4*o.reg+i] = v[i]
		}
		return true
	case 'm':
		p := c.at(c.ea(s, o))
		if align && !c.aligned(s, p, 16) {
			return false
		}
		return c.x.storeVec(s, p, v, 16)
	}
	vm.Unsupported("operand (%s)", c.x.M.Where)
	return false
}

func (c *call) setFlags(s *vm.State, z, cf, sf, of vm.Value) {
	s.Regs[fZF], s.Regs[fCF], s.Regs[fSF], s.Regs[fOF] = z, cf, sf, of
}

func (c *call) logicFlags(s *vm.State, v vm.Value) {
	t, ok := v.(*term.Term)
	if !ok {
		c.noFlags(s)
		return
	}
	C := c.x.C
	c.setFlags(s, C.Eq(t, C.Const(t.W, 0)), C.False(), C.Extract(t, t.W-1, t.W-1), C.False())
}

func (c *call) noFlags(s *vm.State) {
	u := undef{"flags"}
	c.setFlags(s, u, u, u, u)
}

func (c *call) subFlags(s *vm.State, a, b vm.Value) {
	C := c.x.C
	p, q, ok := c.x.cmpTerms(norm(a, C), norm(b, C))
	if !ok {
		c.noFlags(s)
		return
	}
	r := C.Sub(p, q)
	top := func(t *term.Term) *term.Term { return C.Extract(t, t.W-1, t.W-1) }
	of := C.And(C.Xor(top(p), top(q)), C.Xor(top(p), top(r)))
	c.setFlags(s, C.Eq(p, q), C.Ult(p, q), top(r), of)
}

func (c *call) addFlags(s *vm.State, a, b, r vm.Value) {
	C := c.x.C
	p, ok1 := a.(*term.Term)
	q, ok2 := b.(*term.Term)
	t, ok3 := r.(*term.Term)
	if !ok1 || !ok2 || !ok3 {
		c.noFlags(s)
		return
	}
	top := func(t *term.Term) *term.Term { return C.Extract(t, t.W-1, t.W-1) }
	of := C.And(C.Not(C.Xor(top(p), top(q))), C.Xor(top(p), top(t)))
	c.setFlags(s, C.Eq(t, C.Const(t.W, 0)), C.Ult(t, p), top(t), of)
}

func bad(in Inst) step {
	return func(c *call, s *vm.State) bool {
		vm.Unsupported("instruction %s", in.Text)
		return false
	}
}

func (x *X) amdDecode(in Inst) step {
	C := x.C
	var ops []operand
	for _, a := range in.Args {
		o, ok := amdOperand(in, a)
		if !ok {
			return bad(in)
		}
		ops = append(ops, o)
	}
	need := func(n int) bool { return len(ops) == n }
	width := func() uint8 {
		for _, o := range ops {
			if o.w != 0 {
				return o.w
			}
		}
		return 64
	}
	// vectors
	op := in.Op
	vex := strings.HasPrefix(op, "v") && op != "verr" && op != "verw"
	vop := op
	if vex {
		vop = op[1:]
	}
	feat := "AVX"
	if !vex {
		feat = ""
	}
	// bin: two-operand SSE or three-operand VEX form
	bin := func(f string, fn func(a, b vec) vec) step {
		d, p, q := 0, 0, 1
		if vex {
			if !need(3) {
				return bad(in)
			}
			p, q = 1, 2
			f = feat
		} else if !need(2) {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			c.feature(s, f)
			a, ok := c.getX(s, ops[p], false)
			if !ok {
				return false
			}
			b, ok := c.getX(s, ops[q], !vex)
			if !ok {
				return false
			}
			return c.putX(s, ops[d], fn(a, b), false)
		}
	}
	imm := func(i int) uint64 {
		if i < len(ops) && ops[i].kind == 'i' {
			return uint64(ops[i].imm)
		}
		return 0
	}
	last := len(ops) - 1
	switch vop {
	case "movdqu", "movups", "movupd", "lddqu", "movdqa", "movaps", "movapd":
		if !need(2) || ops[0].kind == 'm' && ops[1].kind == 'm' {
			return bad(in)
		}
		al := vop == "movdqa" || vop == "movaps" || vop == "movapd"
		return func(c *call, s *vm.State) bool {
			c.feature(s, feat)
			v, ok := c.getX(s, ops[1], al)
			return ok && c.putX(s, ops[0], v, al)
		}
	case "movd", "movq":
		if !need(2) {
			return bad(in)
		}
		n := 1
		if vop == "movq" {
			n = 2
		}
		return func(c *call, s *vm.State) bool {
			c.feature(s, feat)
			var v vec
			z := C.Const(32, 0)
			switch ops[1].kind {
			case 'x':
				v, _ = c.getX(s, ops[1], false)
			default:
				g, ok := c.get(s, ops[1], 64)
				if !ok {
					return false
				}
				t := C.ZExt(gterm(x, g), 64)
				v[0], v[1] = C.Extract(t, 31, 0), C.Extract(t, 63, 32)
			}
			v[2], v[3] = z, z
			if n == 1 {
				v[1] = z
			}
			switch ops[0].kind {
			case 'x':
				return c.putX(s, ops[0], v, false)
			}
			if n == 1 {
				o := ops[0]
				return c.put(s, o, C.Extract(C.Concat(v[1], v[0]), 31, 0))
			}
			return c.put(s, ops[0], C.Concat(v[1], v[0]))
		}
	case "pinsrd":
		if vex && !need(4) || !vex && !need(3) {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			if vex {
				c.feature(s, feat)
			} else {
				c.feature(s, "SSE4")
			}
			v, ok := c.getX(s, ops[last-2], false)
			if !ok {
				return false
			}
			g, ok := c.get(s, ops[last-1], 32)
			if !ok {
				return false
			}
			v[imm(last)&3] = g.(*term.Term)
			return c.putX(s, ops[0], v, false)
		}
	case "pextrd":
		if !need(3) {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			if vex {
				c.feature(s, feat)
			} else {
				c.feature(s, "SSE4")
			}
			v, ok := c.getX(s, ops[1], false)
			return ok && c.put(s, ops[0], v[imm(2)&3])
		}
	case "pshufd":
		if !need(3) {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			c.feature(s, feat)
			v, ok := c.getX(s, ops[1], !vex)
			if !ok {
				return false
			}
			k := imm(2)
			return c.putX(s, ops[0], vec{v[k&3], v[k>>2&3], v[k>>4&3], v[k>>6&3]}, false)
		}
	case "pshufb":
		return bin("SSSE3", func(a, b vec) vec {
			p, q := x.bytesOf(a), x.bytesOf(b)
			var r [16]*term.Term
			for i := range r {
				if !q[i].IsConst() {
					vm.Unsupported("pshufb with a symbolic control")
				}
				if q[i].A&0x80 != 0 {
					r[i] = C.Const(8, 0)
				} else {
					r[i] = p[q[i].A&15]
				}
			}
			return x.fromBytes(r)
		})
	case "palignr":
		return func(c *call, s *vm.State) bool {
			if vex {
				c.feature(s, feat)
			} else {
				c.feature(s, "SSSE3")
			}
			a, ok := c.getX(s, ops[last-2], false)
			if !ok {
				return false
			}
			b, ok := c.getX(s, ops[last-1], !vex)
			if !ok {
				return false
			}
			p, q := x.bytesOf(a), x.bytesOf(b)
			var r [16]*term.Term
			for i := range r {
				k := uint64(i) + imm(last)&0xff
				switch {
				case k < 16:
					r[i] = q[k]
				case k < 32:
					r[i] = p[k-16]
				default:
					r[i] = C.Const(8, 0)
				}
			}
			return c.putX(s, ops[0], x.fromBytes(r), false)
		}
	case "paddd":
		return bin("", func(a, b vec) vec { return x.map2(a, b, func(p, q *term.Term) *term.Term { return C.Add(p, q) }) })
	case "psubd":
		return bin("", func(a, b vec) vec { return x.map2(a, b, C.Sub) })
	case "pand", "andps":
		return bin("", func(a, b vec) vec { return x.map2(a, b, func(p, q *term.Term) *term.Term { return C.And(p, q) }) })
	case "por", "orps":
		return bin("", func(a, b vec) vec { return x.map2(a, b, func(p, q *term.Term) *term.Term { return C.Or(p, q) }) })
	case "pxor", "xorps":
		return bin("", func(a, b vec) vec { return x.map2(a, b, func(p, q *term.Term) *term.Term { return C.Xor(p, q) }) })
	case "pandn", "andnps":
		return bin("", func(a, b vec) vec {
			return x.map2(a, b, func(p, q *term.Term) *term.Term { return C.And(C.Not(p), q) })
		})
	case "punpckldq":
		return bin("", func(a, b vec) vec { return vec{a[0], b[0], a[1], b[1]} })
	case "punpckhdq":
		return bin("", func(a, b vec) vec { return vec{a[2], b[2], a[3], b[3]} })
	case "punpcklqdq":
		return bin("", func(a, b vec) vec { return vec{a[0], a[1], b[0], b[1]} })
	case "punpckhqdq":
		return bin("", func(a, b vec) vec { return vec{a[2], a[3], b[2], b[3]} })
	case "pslld", "psrld", "pslldq", "psrldq":
		if ops[last].kind != 'i' {
			return bad(in)
		}
		k := uint(imm(last))
		return func(c *call, s *vm.State) bool {
			c.feature(s, feat)
			v, ok := c.getX(s, ops[last-1], false)
			if !ok {
				return false
			}
			switch vop {
			case "pslld", "psrld":
				for i := range v {
					switch {
					case k > 31:
						v[i] = C.Const(32, 0)
					case vop == "pslld":
						v[i] = C.ShlK(v[i], k)
					default:
						v[i] = C.LShrK(v[i], k)
					}
				}
			default:
				b := x.bytesOf(v)
				var r [16]*term.Term
				for i := range r {
					j := i + int(k)
					if vop == "pslldq" {
						j = i - int(k)
					}
					r[i] = C.Const(8, 0)
					if j >= 0 && j < 16 {
						r[i] = b[j]
					}
				}
				v = x.fromBytes(r)
			}
			return c.putX(s, ops[0], v, false)
		}
	case "zeroupper":
		return func(c *call, s *vm.State) bool { c.feature(s, feat); return true }
	}
	// SHA extensions
	rnd := func(k uint64) (func(b, c, d *term.Term) *term.Term, *term.Term) {
		switch k & 3 {
		case 0:
			return func(b, c, d *term.Term) *term.Term { return C.Xor(C.And(b, c), C.And(C.Not(b), d)) }, C.Const(32, 0x5a827999)
		case 1:
			return x.par, C.Const(32, 0x6ed9eba1)
		case 2:
			return func(b, c, d *term.Term) *term.Term { return C.Xor(C.And(b, c), C.And(b, d), C.And(c, d)) }, C.Const(32, 0x8f1bbcdc)
		}
		return x.par, C.Const(32, 0xca62c1d6)
	}
	switch op {
	case "sha1rnds4":
		if !need(3) {
			return bad(in)
		}
		f, k := rnd(imm(2))
		return func(c *call, s *vm.State) bool {
			c.feature(s, "SHA")
			p, ok := c.getX(s, ops[0], false)
			if !ok {
				return false
			}
			w, ok := c.getX(s, ops[1], true)
			if !ok {
				return false
			}
			a, b, cc, d := p[3], p[2], p[1], p[0]
			e := C.Const(32, 0)
			for i := 0; i < 4; i++ {
				t := C.Add(f(b, cc, d), C.Rotl(a, 5), w[3-i], e, k)
				a, b, cc, d, e = t, a, C.Rotl(b, 30), cc, d
			}
			return c.putX(s, ops[0], vec{d, cc, b, a}, false)
		}
	case "sha1nexte":
		return x.shaBin(in, ops, func(a, b vec) vec { return vec{b[0], b[1], b[2], C.Add(b[3], C.Rotl(a[3], 30))} })
	case "sha1msg1":
		return x.shaBin(in, ops, func(a, b vec) vec {
			return vec{C.Xor(b[2], a[0]), C.Xor(b[3], a[1]), C.Xor(a[0], a[2]), C.Xor(a[1], a[3])}
		})
	case "sha1msg2":
		return x.shaBin(in, ops, func(a, b vec) vec {
			w16 := C.Rotl(C.Xor(a[3], b[2]), 1)
			return vec{C.Rotl(C.Xor(a[0], w16), 1), C.Rotl(C.Xor(a[1], b[0]), 1), C.Rotl(C.Xor(a[2], b[1]), 1), w16}
		})
	}
	if vex {
		return bad(in)
	}
	// general instructions
	w := width()
	two := func(f func(c *call, s *vm.State, a, b vm.Value) (vm.Value, bool)) step {
		if !need(2) {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			a, ok := c.get(s, ops[0], w)
			if !ok {
				return false
			}
			b, ok := c.get(s, ops[1], w)
			if !ok {
				return false
			}
			v, store := f(c, s, a, b)
			return !store || c.put(s, ops[0], v)
		}
	}
	one := func(f func(c *call, s *vm.State, a vm.Value) vm.Value) step {
		if !need(1) {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			a, ok := c.get(s, ops[0], w)
			return ok && c.put(s, ops[0], f(c, s, a))
		}
	}
	switch op {
	case "nop", "prefetcht0", "prefetcht1", "prefetcht2", "prefetchnta", "endbr64":
		return func(c *call, s *vm.State) bool { return true }
	case "int3", "ud2":
		return func(c *call, s *vm.State) bool { x.M.Panic(s, "trap"); return false }
	case "mov", "movabs":
		if !need(2) {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			v, ok := c.get(s, ops[1], w)
			return ok && c.put(s, ops[0], v)
		}
	case "movzx":
		return func(c *call, s *vm.State) bool {
			v, ok := c.get(s, ops[1], 0)
			return ok && c.put(s, ops[0], C.ZExt(v.(*term.Term), ops[0].w))
		}
	case "lea":
		if !need(2) || ops[1].kind != 'm' || ops[0].w != 64 {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool { return c.put(s, ops[0], c.ea(s, ops[1])) }
	case "push":
		return func(c *call, s *vm.State) bool {
			v, ok := c.get(s, ops[0], 64)
			if !ok {
				return false
			}
			sp := x.sub(s.Regs[rSP], C.Const(64, 8))
			s.Regs[rSP] = sp
			return x.M.StoreVal(s, c.at(sp), v, 8)
		}
	case "pop":
		return func(c *call, s *vm.State) bool {
			v, ok := x.M.LoadWord(s, c.at(s.Regs[rSP]))
			if !ok {
				return false
			}
			s.Regs[rSP] = x.add(s.Regs[rSP], C.Const(64, 8))
			return c.put(s, ops[0], v)
		}
	case "add":
		return two(func(c *call, s *vm.State, a, b vm.Value) (vm.Value, bool) {
			r := x.add(a, b)
			c.addFlags(s, a, b, r)
			return r, true
		})
	case "sub":
		return two(func(c *call, s *vm.State, a, b vm.Value) (vm.Value, bool) {
			c.subFlags(s, a, b)
			return x.sub(a, b), true
		})
	case "cmp":
		return two(func(c *call, s *vm.State, a, b vm.Value) (vm.Value, bool) { c.subFlags(s, a, b); return nil, false })
	case "test":
		return two(func(c *call, s *vm.State, a, b vm.Value) (vm.Value, bool) {
			if p, ok := a.(vm.Ptr); ok && p == b {
				c.setFlags(s, C.Bool(p.IsNil()), C.False(), undef{"sign of an address"}, C.False())
				return nil, false
			}
			c.logicFlags(s, c.and(a, b))
			return nil, false
		})
	case "and":
		return two(func(c *call, s *vm.State, a, b vm.Value) (vm.Value, bool) {
			r := c.and(a, b)
			c.logicFlags(s, r)
			return r, true
		})
	case "or":
		return two(func(c *call, s *vm.State, a, b vm.Value) (vm.Value, bool) {
			r := C.Or(gterm(x, a), gterm(x, b))
			c.logicFlags(s, r)
			return r, true
		})
	case "xor":
		if need(2) && ops[0].kind == 'r' && ops[0] == ops[1] {
			return func(c *call, s *vm.State) bool {
				z := C.Const(ops[0].w, 0)
				c.logicFlags(s, z)
				return c.put(s, ops[0], z)
			}
		}
		return two(func(c *call, s *vm.State, a, b vm.Value) (vm.Value, bool) {
			r := C.Xor(gterm(x, a), gterm(x, b))
			c.logicFlags(s, r)
			return r, true
		})
	case "not":
		return one(func(c *call, s *vm.State, a vm.Value) vm.Value { return C.Not(gterm(x, a)) })
	case "neg":
		return one(func(c *call, s *vm.State, a vm.Value) vm.Value {
			t := gterm(x, a)
			c.subFlags(s, C.Const(t.W, 0), t)
			return C.Neg(t)
		})
	case "inc", "dec":
		return one(func(c *call, s *vm.State, a vm.Value) vm.Value {
			cf := s.Regs[fCF]
			var r vm.Value
			one := C.Const(w, 1)
			if op == "inc" {
				r = x.add(a, one)
				c.addFlags(s, a, one, r)
			} else {
				c.subFlags(s, a, one)
				r = x.sub(a, one)
			}
			s.Regs[fCF] = cf
			return r
		})
	case "shl", "shr", "sar", "rol", "ror", "sal":
		if len(ops) == 1 {
			ops = append(ops, operand{kind: 'i', imm: 1})
		}
		if ops[1].kind != 'i' {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			a, ok := c.get(s, ops[0], w)
			if !ok {
				return false
			}
			t := gterm(x, a)
			k := uint(ops[1].imm) & 31
			if w == 64 {
				k = uint(ops[1].imm) & 63
			}
			if k == 0 {
				return true
			}
			if k >= uint(w) {
				vm.Unsupported("instruction %s", in.Text)
			}
			var r *term.Term
			switch op {
			case "shl", "sal":
				r = C.ShlK(t, k)
			case "shr":
				r = C.LShrK(t, k)
			case "sar":
				r = C.SExt(C.Extract(t, uint8(w-1), uint8(k)), t.W)
			case "rol":
				r = C.Rotl(t, k)
			case "ror":
				r = C.Rotl(t, uint(w)-k)
			}
			if op == "rol" || op == "ror" {
				s.Regs[fCF], s.Regs[fOF] = undef{"flags"}, undef{"flags"}
			} else {
				c.logicFlags(s, r)
				s.Regs[fCF], s.Regs[fOF] = undef{"flags"}, undef{"flags"}
			}
			return c.put(s, ops[0], r)
		}
	case "bswap":
		return one(func(c *call, s *vm.State, a vm.Value) vm.Value {
			t := gterm(x, a)
			var ps []*term.Term
			for i := 0; i < int(w/8); i++ {
				ps = append(ps, C.Extract(t, uint8(8*i+7), uint8(8*i)))
			}
			return C.Concat(ps...)
		})
	case "xchg":
		return two(func(c *call, s *vm.State, a, b vm.Value) (vm.Value, bool) {
			if !c.put(s, ops[1], a) {
				return nil, false
			}
			return b, true
		})
	}
	return bad(in)
}

func (x *X) shaBin(in Inst, ops []operand, f func(a, b vec) vec) step {
	if len(ops) != 2 {
		return bad(in)
	}
	return func(c *call, s *vm.State) bool {
		c.feature(s, "SHA")
		a, ok := c.getX(s, ops[0], false)
		if !ok {
			return false
		}
		b, ok := c.getX(s, ops[1], true)
		if !ok {
			return false
		}
		return c.putX(s, ops[0], f(a, b), false)
	}
}
