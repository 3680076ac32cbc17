package asm

import (
	"strings"

	"verif/engine/term"
	"verif/engine/vm"
)

// registers: 0-30 general, 31 stack pointer, 32-35 flags, then 32 vectors
const (
	aSP = 31
	aN  = 32 + iota - 1
	aZ
	aCf
	aV
	armVec
	armRegs = armVec + 128
)

func (x *X) armEntry(c *call, sp vm.Ptr, init Regs) []vm.Value {
	rs := make([]vm.Value, armRegs)
	for i := 0; i < 31; i++ {
		rs[i] = init("r"+itoa(i), 0, 64)
	}
	rs[30] = c.retTok
	rs[aSP] = sp
	for i := aN; i <= aV; i++ {
		rs[i] = undef{"flags on entry"}
	}
	for i := 0; i < 32; i++ {
		for l := 0; l < 4; l++ {
			rs[armVec+4*i+l] = init("v"+itoa(i), l, 32)
		}
	}
	for _, r := range []int{28, aSP} {
		c.preg[r] = rs[r]
	}
	return rs
}

func (x *X) armRet(c *call, s *vm.State) bool {
	x.M.Assert(s, "asm.stack-restored", x.C.Bool(s.Regs[aSP] == vm.Value(c.preg[aSP])))
	if s.Regs[aSP] != vm.Value(c.preg[aSP]) {
		return false
	}
	x.same(c, s, "asm.return-address-kept", s.Regs[30], c.retTok)
	x.same(c, s, "asm.g-kept", s.Regs[28], c.preg[28])
	// the frame pointer register is re-established by the caller's code
	return true
}

func (x *X) armCond(in Inst) func(c *call, s *vm.State) *term.Term {
	C := x.C
	fail := func(c *call, s *vm.State) *term.Term {
		vm.Unsupported("condition %s", in.Text)
		return nil
	}
	switch in.Op {
	case "cbz", "cbnz":
		g, ok := armGPR(in.Args[0])
		if !ok {
			return fail
		}
		return func(c *call, s *vm.State) *term.Term {
			v := c.agetv(s, g)
			var z *term.Term
			if p, ok := v.(vm.Ptr); ok {
				z = C.Bool(p.IsNil())
			} else {
				t := v.(*term.Term)
				z = C.Eq(t, C.Const(t.W, 0))
			}
			if in.Op == "cbnz" {
				return C.Not(z)
			}
			return z
		}
	case "tbz", "tbnz":
		g, ok := armGPR(in.Args[0])
		k, ok2 := parseNum(in.Args[1])
		if !ok || !ok2 {
			return fail
		}
		return func(c *call, s *vm.State) *term.Term {
			b := C.Extract(gterm(x, s.Regs[g.n]), uint8(k), uint8(k))
			if in.Op == "tbz" {
				return C.Not(b)
			}
			return b
		}
	}
	fl := func(c *call, s *vm.State, i int) *term.Term { return c.flag(s, i) }
	n, z, cf, v := func(c *call, s *vm.State) *term.Term { return fl(c, s, aN) },
		func(c *call, s *vm.State) *term.Term { return fl(c, s, aZ) },
		func(c *call, s *vm.State) *term.Term { return fl(c, s, aCf) },
		func(c *call, s *vm.State) *term.Term { return fl(c, s, aV) }
	type cf2 = func(c *call, s *vm.State) *term.Term
	not := func(f cf2) cf2 { return func(c *call, s *vm.State) *term.Term { return C.Not(f(c, s)) } }
	ls := func(c *call, s *vm.State) *term.Term { return C.Or(C.Not(cf(c, s)), z(c, s)) }
	lt := func(c *call, s *vm.State) *term.Term { return C.Xor(n(c, s), v(c, s)) }
	le := func(c *call, s *vm.State) *term.Term { return C.Or(z(c, s), C.Xor(n(c, s), v(c, s))) }
	m := map[string]cf2{"eq": z, "ne": not(z), "hs": cf, "cs": cf, "lo": not(cf), "cc": not(cf), "mi": n, "pl": not(n),
		"ls": ls, "hi": not(ls), "lt": lt, "ge": not(lt), "le": le, "gt": not(le)}
	if f, ok := m[strings.TrimPrefix(in.Op, "b.")]; ok {
		return f
	}
	return fail
}

type areg struct {
	n    int // 31: stack pointer or zero
	w    uint8
	zero bool
}

func armGPR(a string) (g areg, ok bool) {
	switch a {
	case "sp":
		return areg{aSP, 64, false}, true
	case "wsp":
		return
	case "xzr":
		return areg{0, 64, true}, true
	case "wzr":
		return areg{0, 32, true}, true
	case "lr":
		return areg{30, 64, false}, true
	}
	if len(a) < 2 || a[0] != 'x' && a[0] != 'w' {
		return
	}
	n, ok := parseNum(a[1:])
	if !ok || n > 30 {
		return g, false
	}
	g = areg{int(n), 64, false}
	if a[0] == 'w' {
		g.w = 32
	}
	return g, true
}

func (c *call) agetv(s *vm.State, g areg) vm.Value {
	if g.zero {
		return c.x.C.Const(g.w, 0)
	}
	v := norm(s.Regs[g.n], c.x.C)
	if g.w == 32 {
		return c.x.C.Extract(gterm(c.x, v), 31, 0)
	}
	return v
}

func (c *call) aputv(s *vm.State, g areg, v vm.Value) {
	if g.zero {
		return
	}
	if t, ok := v.(*term.Term); ok && t.W < 64 {
		v = c.x.C.ZExt(t, 64)
	}
	s.Regs[g.n] = norm(v, c.x.C)
}

// vreg is a vector operand: v3.4s, v3.s[1], q3, s3, d3.
type vreg struct {
	n    int
	arr  string // 4s, 16b, 2d, s, q, d, b ...
	lane int    // -1: whole
}

func armVReg(a string) (v vreg, ok bool) {
	v.lane = -1
	if len(a) < 2 {
		return
	}
	if a[0] == 'v' {
		num, arr, has := strings.Cut(a[1:], ".")
		n, ok1 := parseNum(num)
		if !ok1 || n > 31 || !has {
			return v, false
		}
		v.n = int(n)
		if i := strings.IndexByte(arr, '['); i >= 0 {
			l, ok2 := parseNum(strings.TrimSuffix(arr[i+1:], "]"))
			if !ok2 {
				return v, false
			}
			v.lane, arr = int(l), arr[:i]
		}
		v.arr = arr
		return v, true
	}
	if strings.IndexByte("qds", a[0]) >= 0 {
		n, ok1 := parseNum(a[1:])
		if !ok1 || n > 31 {
			return v, false
		}
		v.n, v.arr = int(n), a[:1]
		return v, true
	}
	return
}

func (c *call) vget(s *vm.State, n int) (v vec) {
	for i := range v {
		v[i] = s.Regs[armVec+4*n+i].(*term.Term)
	}
	return
}

func (c *call) vput(s *vm.State, n int, v vec) {
	for i := range v {
		s.Regs[armVec+4*n+i] = v[i]
	}
}

// amem is an address operand, with its update.
type amem struct {
	base areg
	idx  areg
	hasI bool
	sh   uint
	off  int64
	pre  bool
	post int64
	hasP bool
}

// armMem decodes the address at args[i:].
func armMem(args []string, i int) (m amem, ok bool) {
	a := args[i]
	if strings.HasSuffix(a, "!") {
		m.pre = true
		a = a[:len(a)-1]
	}
	if !strings.HasPrefix(a, "[") || !strings.HasSuffix(a, "]") {
		return m, false
	}
	ps := splitArgs(a[1 : len(a)-1])
	if m.base, ok = armGPR(ps[0]); !ok {
		return m, false
	}
	if len(ps) > 1 {
		if v, ok := parseNum(ps[1]); ok {
			m.off = v
		} else if g, ok := armGPR(ps[1]); ok && g.w == 64 {
			m.idx, m.hasI = g, true
			if len(ps) > 2 {
				k, ok := parseNum(strings.TrimPrefix(ps[2], "lsl "))
				if !ok || !strings.HasPrefix(ps[2], "lsl") {
					return m, false
				}
				m.sh = uint(k)
			}
		} else {
			return m, false
		}
	}
	if len(args) > i+1 {
		v, ok := parseNum(args[i+1])
		if !ok {
			return m, false
		}
		m.post, m.hasP = v, true
	}
	return m, true
}

// addr computes the address and applies the write-back.
func (c *call) addr(s *vm.State, m amem) vm.Ptr {
	x := c.x
	b := c.agetv(s, m.base)
	a := x.add(b, x.C.Const(64, uint64(m.off)))
	if m.hasI {
		a = x.add(a, x.C.ShlK(gterm(x, c.agetv(s, m.idx)), m.sh))
	}
	p := c.at(a)
	if m.pre {
		c.aputv(s, m.base, a)
	}
	if m.hasP {
		c.aputv(s, m.base, x.add(b, x.C.Const(64, uint64(m.post))))
	}
	return p
}

func (c *call) asubFlags(s *vm.State, a, b vm.Value) {
	C := c.x.C
	p, q, ok := c.x.cmpTerms(norm(a, C), norm(b, C))
	if !ok {
		for i := aN; i <= aV; i++ {
			s.Regs[i] = undef{"flags"}
		}
		return
	}
	r := C.Sub(p, q)
	top := func(t *term.Term) *term.Term { return C.Extract(t, t.W-1, t.W-1) }
	s.Regs[aN], s.Regs[aZ], s.Regs[aCf] = top(r), C.Eq(p, q), C.Not(C.Ult(p, q))
	s.Regs[aV] = C.And(C.Xor(top(p), top(q)), C.Xor(top(p), top(r)))
}

func (x *X) armDecode(in Inst) step {
	C := x.C
	z32 := C.Const(32, 0)
	a := in.Args
	// src reads a register, immediate or shifted register starting at args[i]
	type srcF = func(c *call, s *vm.State, w uint8) vm.Value
	src := func(i int) (srcF, bool) {
		if v, ok := parseNum(a[i]); ok {
			if len(a) > i+1 {
				k, ok := parseNum(strings.TrimPrefix(a[i+1], "lsl "))
				if !ok || !strings.HasPrefix(a[i+1], "lsl") {
					return nil, false
				}
				v <<= uint(k)
			}
			return func(c *call, s *vm.State, w uint8) vm.Value { return C.Const(w, uint64(v)) }, true
		}
		g, ok := armGPR(a[i])
		if !ok {
			return nil, false
		}
		if len(a) == i+1 {
			return func(c *call, s *vm.State, w uint8) vm.Value { return c.agetv(s, g) }, true
		}
		f := strings.Fields(a[i+1])
		if len(f) != 2 {
			return nil, false
		}
		k, ok := parseNum(f[1])
		if !ok {
			return nil, false
		}
		return func(c *call, s *vm.State, w uint8) vm.Value {
			t := gterm(x, c.agetv(s, g))
			switch f[0] {
			case "lsl":
				return C.ShlK(t, uint(k))
			case "lsr":
				return C.LShrK(t, uint(k))
			case "ror":
				return C.Rotl(t, uint(t.W)-uint(k))
			}
			vm.Unsupported("instruction %s", in.Text)
			return nil
		}, true
	}
	three := func(f func(c *call, s *vm.State, p, q vm.Value) vm.Value) step {
		if len(a) < 3 {
			return bad(in)
		}
		d, ok1 := armGPR(a[0])
		n, ok2 := armGPR(a[1])
		m, ok3 := src(2)
		if !ok1 || !ok2 || !ok3 {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			c.aputv(s, d, f(c, s, c.agetv(s, n), m(c, s, n.w)))
			return true
		}
	}
	// vector forms
	var vs []vreg
	allV := len(a) > 0
	for _, q := range a {
		v, ok := armVReg(q)
		if !ok {
			allV = false
			break
		}
		vs = append(vs, v)
	}
	whole := func() bool {
		for _, v := range vs {
			if v.lane >= 0 || v.arr != "4s" && v.arr != "16b" && v.arr != "2d" && v.arr != "q" {
				return false
			}
		}
		return true
	}
	v3 := func(f func(p, q vec) vec) step {
		if len(vs) != 3 || !whole() {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			c.vput(s, vs[0].n, f(c.vget(s, vs[1].n), c.vget(s, vs[2].n)))
			return true
		}
	}
	if allV {
		switch in.Op {
		case "mov", "fmov":
			if len(vs) != 2 {
				return bad(in)
			}
			d, n := vs[0], vs[1]
			switch {
			case d.arr == "16b" && n.arr == "16b":
				return func(c *call, s *vm.State) bool { c.vput(s, d.n, c.vget(s, n.n)); return true }
			case d.arr == "s" && d.lane < 0 && n.arr == "s":
				l := max(n.lane, 0)
				return func(c *call, s *vm.State) bool {
					c.vput(s, d.n, vec{c.vget(s, n.n)[l], z32, z32, z32})
					return true
				}
			case d.arr == "s" && d.lane >= 0 && n.arr == "s" && n.lane >= 0:
				return func(c *call, s *vm.State) bool {
					v := c.vget(s, d.n)
					v[d.lane] = c.vget(s, n.n)[n.lane]
					c.vput(s, d.n, v)
					return true
				}
			}
			return bad(in)
		case "dup":
			if len(vs) != 2 || vs[1].lane < 0 || vs[1].arr != "s" || vs[0].arr != "4s" {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				t := c.vget(s, vs[1].n)[vs[1].lane]
				c.vput(s, vs[0].n, vec{t, t, t, t})
				return true
			}
		case "rev32":
			if len(vs) != 2 || vs[0].arr != "16b" {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				b := x.bytesOf(c.vget(s, vs[1].n))
				var r [16]*term.Term
				for i := range r {
					r[i] = b[i^3]
				}
				c.vput(s, vs[0].n, x.fromBytes(r))
				return true
			}
		case "add":
			if len(vs) == 3 && vs[0].arr == "4s" {
				return v3(func(p, q vec) vec { return x.map2(p, q, func(p, q *term.Term) *term.Term { return C.Add(p, q) }) })
			}
			return bad(in)
		case "sub":
			if len(vs) == 3 && vs[0].arr == "4s" {
				return v3(func(p, q vec) vec { return x.map2(p, q, C.Sub) })
			}
			return bad(in)
		case "and":
			return v3(func(p, q vec) vec { return x.map2(p, q, func(p, q *term.Term) *term.Term { return C.And(p, q) }) })
		case "orr":
			return v3(func(p, q vec) vec { return x.map2(p, q, func(p, q *term.Term) *term.Term { return C.Or(p, q) }) })
		case "eor":
			return v3(func(p, q vec) vec { return x.map2(p, q, func(p, q *term.Term) *term.Term { return C.Xor(p, q) }) })
		}
		// SHA-1 extension
		sha := func(f func(b, c, d *term.Term) *term.Term) step {
			if len(vs) != 3 || vs[0].arr != "q" || vs[1].arr != "s" || vs[2].arr != "4s" {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				c.feature(s, "SHA1")
				X, Y, W := c.vget(s, vs[0].n), c.vget(s, vs[1].n)[0], c.vget(s, vs[2].n)
				for e := 0; e < 4; e++ {
					t := f(X[1], X[2], X[3])
					Y = C.Add(Y, C.Rotl(X[0], 5), t, W[e])
					X[1] = C.Rotl(X[1], 30)
					// <Y,X> rotated left by 32
					Y, X = X[3], vec{Y, X[0], X[1], X[2]}
				}
				c.vput(s, vs[0].n, X)
				return true
			}
		}
		switch in.Op {
		case "sha1c":
			return sha(x.ch)
		case "sha1p":
			return sha(x.par)
		case "sha1m":
			return sha(x.maj)
		case "sha1h":
			if len(vs) != 2 || vs[0].arr != "s" || vs[1].arr != "s" {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				c.feature(s, "SHA1")
				c.vput(s, vs[0].n, vec{C.Rotl(c.vget(s, vs[1].n)[0], 30), z32, z32, z32})
				return true
			}
		case "sha1su0":
			if len(vs) != 3 || !whole() {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				c.feature(s, "SHA1")
				d, n, m := c.vget(s, vs[0].n), c.vget(s, vs[1].n), c.vget(s, vs[2].n)
				t := vec{d[2], d[3], n[0], n[1]}
				for i := range t {
					t[i] = C.Xor(t[i], d[i], m[i])
				}
				c.vput(s, vs[0].n, t)
				return true
			}
		case "sha1su1":
			if len(vs) != 2 || !whole() {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				c.feature(s, "SHA1")
				d, n := c.vget(s, vs[0].n), c.vget(s, vs[1].n)
				t := vec{C.Xor(d[0], n[1]), C.Xor(d[1], n[2]), C.Xor(d[2], n[3]), d[3]}
				c.vput(s, vs[0].n, vec{C.Rotl(t[0], 1), C.Rotl(t[1], 1), C.Rotl(t[2], 1), C.Xor(C.Rotl(t[3], 1), C.Rotl(t[0], 2))})
				return true
			}
		}
		return bad(in)
	}
	switch in.Op {
	case "nop", "hint", "prfm":
		return func(c *call, s *vm.State) bool { return true }
	case "udf", "brk":
		return func(c *call, s *vm.State) bool { x.M.Panic(s, "trap"); return false }
	case "ext":
		if len(vs) == 3 && len(a) == 4 && whole() {
			k, ok := parseNum(a[3])
			if ok {
				return func(c *call, s *vm.State) bool {
					p, q := x.bytesOf(c.vget(s, vs[1].n)), x.bytesOf(c.vget(s, vs[2].n))
					var r [16]*term.Term
					for i := range r {
						if j := i + int(k); j < 16 {
							r[i] = p[j]
						} else {
							r[i] = q[j-16]
						}
					}
					c.vput(s, vs[0].n, x.fromBytes(r))
					return true
				}
			}
		}
		return bad(in)
	case "ld1", "st1":
		l := strings.TrimSpace(a[0])
		lane := -1
		if i := strings.LastIndexByte(l, '['); i >= 0 && i > strings.IndexByte(l, '}') {
			k, ok := parseNum(strings.TrimSuffix(l[i+1:], "]"))
			if !ok {
				return bad(in)
			}
			lane = int(k)
			l = l[:i]
		}
		l = strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(l), "{"), "}")
		var rs []vreg
		for _, q := range strings.Split(l, ",") {
			v, ok := armVReg(strings.TrimSpace(q))
			if !ok {
				return bad(in)
			}
			rs = append(rs, v)
		}
		m, ok := armMem(a, 1)
		if !ok {
			return bad(in)
		}
		if lane >= 0 {
			if len(rs) != 1 || rs[0].arr != "s" {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				p := c.addr(s, m)
				v := c.vget(s, rs[0].n)
				if in.Op == "st1" {
					return x.M.StoreVal(s, p, v[lane], 4)
				}
				t, ok := x.M.LoadTerm(s, p, 4)
				if !ok {
					return false
				}
				v[lane] = t
				c.vput(s, rs[0].n, v)
				return true
			}
		}
		for _, v := range rs {
			if v.arr != "4s" && v.arr != "16b" && v.arr != "2d" {
				return bad(in)
			}
		}
		return func(c *call, s *vm.State) bool {
			p := c.addr(s, m)
			for i, r := range rs {
				q := vm.Ptr{Obj: p.Obj, Off: p.Off + int64(16*i)}
				if in.Op == "st1" {
					if !x.storeVec(s, q, c.vget(s, r.n), 16) {
						return false
					}
					continue
				}
				v, ok := x.loadVec(s, q, 16)
				if !ok {
					return false
				}
				c.vput(s, r.n, v)
			}
			return true
		}
	case "ldr", "ldur", "str", "stur":
		m, ok := armMem(a, 1)
		if !ok {
			return bad(in)
		}
		st := in.Op[0] == 's'
		if v, ok := armVReg(a[0]); ok {
			n := map[string]int{"q": 16, "d": 8, "s": 4}[v.arr]
			if n == 0 {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				p := c.addr(s, m)
				if st {
					return x.storeVec(s, p, c.vget(s, v.n), n)
				}
				w, ok := x.loadVec(s, p, n)
				if ok {
					c.vput(s, v.n, w)
				}
				return ok
			}
		}
		g, ok := armGPR(a[0])
		if !ok {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			if st {
				v := c.agetv(s, g)
				return x.M.StoreVal(s, c.addr(s, m), v, int(g.w/8))
			}
			return c.aload(s, g, c.addr(s, m))
		}
	case "ldp", "stp":
		if len(a) < 3 {
			return bad(in)
		}
		m, ok := armMem(a, 2)
		if !ok {
			return bad(in)
		}
		if len(vs) == 2 {
			n := map[string]int{"q": 16, "d": 8, "s": 4}[vs[0].arr]
			if n == 0 {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				p := c.addr(s, m)
				for i, r := range vs {
					q := vm.Ptr{Obj: p.Obj, Off: p.Off + int64(n*i)}
					if in.Op == "stp" {
						if !x.storeVec(s, q, c.vget(s, r.n), n) {
							return false
						}
						continue
					}
					v, ok := x.loadVec(s, q, n)
					if !ok {
						return false
					}
					c.vput(s, r.n, v)
				}
				return true
			}
		}
		g0, ok0 := armGPR(a[0])
		g1, ok1 := armGPR(a[1])
		if !ok0 || !ok1 {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			n := int64(g0.w / 8)
			v0, v1 := vm.Value(nil), vm.Value(nil)
			if in.Op == "stp" {
				v0, v1 = c.agetv(s, g0), c.agetv(s, g1)
			}
			p := c.addr(s, m)
			q := vm.Ptr{Obj: p.Obj, Off: p.Off + n}
			if in.Op == "stp" {
				return x.M.StoreVal(s, p, v0, int(n)) && x.M.StoreVal(s, q, v1, int(n))
			}
			return c.aload(s, g0, p) && c.aload(s, g1, q)
		}
	case "adrp", "adr":
		g, ok := armGPR(a[0])
		v, ok2 := parseNum(a[1])
		if !ok || !ok2 {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool { c.aputv(s, g, C.Const(64, uint64(v))); return true }
	case "mov", "movz", "movk", "movn", "fmov":
		if len(a) < 2 {
			return bad(in)
		}
		// between files
		if v, ok := armVReg(a[1]); ok {
			if g, ok := armGPR(a[0]); ok && v.arr == "s" {
				return func(c *call, s *vm.State) bool {
					c.aputv(s, g, c.vget(s, v.n)[max(v.lane, 0)])
					return true
				}
			}
			return bad(in)
		}
		if v, ok := armVReg(a[0]); ok {
			if g, ok := armGPR(a[1]); ok && v.arr == "s" {
				return func(c *call, s *vm.State) bool {
					w := c.vget(s, v.n)
					t := C.Extract(gterm(x, c.agetv(s, g)), 31, 0)
					if v.lane < 0 {
						w = vec{t, z32, z32, z32}
					} else {
						w[v.lane] = t
					}
					c.vput(s, v.n, w)
					return true
				}
			}
			return bad(in)
		}
		g, ok := armGPR(a[0])
		if !ok {
			return bad(in)
		}
		if in.Op == "movk" {
			v, ok := parseNum(a[1])
			k := int64(0)
			if len(a) > 2 {
				k, _ = parseNum(strings.TrimPrefix(a[2], "lsl "))
			}
			if !ok {
				return bad(in)
			}
			return func(c *call, s *vm.State) bool {
				t := gterm(x, c.agetv(s, g))
				c.aputv(s, g, C.Or(C.And(t, C.Const(g.w, ^(uint64(0xffff)<<uint(k)))), C.Const(g.w, uint64(v)<<uint(k))))
				return true
			}
		}
		f, ok := src(1)
		if !ok || in.Op == "fmov" {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			v := f(c, s, g.w)
			if in.Op == "movn" {
				v = C.Not(v.(*term.Term))
			}
			c.aputv(s, g, v)
			return true
		}
	case "dup":
		if len(vs) == 1 && vs[0].arr == "4s" {
			if g, ok := armGPR(a[1]); ok && g.w == 32 {
				return func(c *call, s *vm.State) bool {
					t := c.agetv(s, g).(*term.Term)
					c.vput(s, vs[0].n, vec{t, t, t, t})
					return true
				}
			}
		}
		return bad(in)
	case "movi":
		if len(vs) == 1 && len(a) == 2 {
			if k, ok := parseNum(a[1]); ok && k == 0 {
				return func(c *call, s *vm.State) bool { c.vput(s, vs[0].n, vec{z32, z32, z32, z32}); return true }
			}
		}
		return bad(in)
	case "shl", "ushr":
		if len(vs) == 2 && vs[0].arr == "4s" && len(a) == 3 {
			if k, ok := parseNum(a[2]); ok && k < 32 {
				return func(c *call, s *vm.State) bool {
					v := c.vget(s, vs[1].n)
					for i := range v {
						if in.Op == "shl" {
							v[i] = C.ShlK(v[i], uint(k))
						} else {
							v[i] = C.LShrK(v[i], uint(k))
						}
					}
					c.vput(s, vs[0].n, v)
					return true
				}
			}
		}
		return bad(in)
	case "add":
		return three(func(c *call, s *vm.State, p, q vm.Value) vm.Value { return x.add(p, q) })
	case "sub":
		return three(func(c *call, s *vm.State, p, q vm.Value) vm.Value { return x.sub(p, q) })
	case "subs":
		return three(func(c *call, s *vm.State, p, q vm.Value) vm.Value { c.asubFlags(s, p, q); return x.sub(p, q) })
	case "and":
		return three(func(c *call, s *vm.State, p, q vm.Value) vm.Value { return c.and(p, q) })
	case "orr":
		return three(func(c *call, s *vm.State, p, q vm.Value) vm.Value { return C.Or(gterm(x, p), gterm(x, q)) })
	case "eor":
		return three(func(c *call, s *vm.State, p, q vm.Value) vm.Value { return C.Xor(gterm(x, p), gterm(x, q)) })
	case "bic":
		return three(func(c *call, s *vm.State, p, q vm.Value) vm.Value { return c.and(p, C.Not(gterm(x, q))) })
	case "lsl", "lsr", "ror":
		return three(func(c *call, s *vm.State, p, q vm.Value) vm.Value {
			t, k := gterm(x, p), gterm(x, q)
			if !k.IsConst() || k.A >= uint64(t.W) {
				vm.Unsupported("instruction %s", in.Text)
			}
			switch in.Op {
			case "lsl":
				return C.ShlK(t, uint(k.A))
			case "lsr":
				return C.LShrK(t, uint(k.A))
			}
			return C.Rotl(t, uint(t.W)-uint(k.A))
		})
	case "rev":
		g, ok := armGPR(a[0])
		n, ok2 := armGPR(a[1])
		if !ok || !ok2 {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			t := gterm(x, c.agetv(s, n))
			var ps []*term.Term
			for i := 0; i < int(g.w/8); i++ {
				ps = append(ps, C.Extract(t, uint8(8*i+7), uint8(8*i)))
			}
			c.aputv(s, g, C.Concat(ps...))
			return true
		}
	case "cmp":
		n, ok := armGPR(a[0])
		m, ok2 := src(1)
		if !ok || !ok2 {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool { c.asubFlags(s, c.agetv(s, n), m(c, s, n.w)); return true }
	case "tst":
		n, ok := armGPR(a[0])
		m, ok2 := src(1)
		if !ok || !ok2 {
			return bad(in)
		}
		return func(c *call, s *vm.State) bool {
			t := gterm(x, c.and(c.agetv(s, n), m(c, s, n.w)))
			s.Regs[aN], s.Regs[aZ], s.Regs[aCf], s.Regs[aV] = C.Extract(t, t.W-1, t.W-1), C.Eq(t, C.Const(t.W, 0)), C.False(), C.False()
			return true
		}
	}
	return bad(in)
}

func (c *call) aload(s *vm.State, g areg, p vm.Ptr) bool {
	x := c.x
	if g.w == 64 {
		v, ok := x.M.LoadWord(s, p)
		if ok {
			c.aputv(s, g, v)
		}
		return ok
	}
	t, ok := x.M.LoadTerm(s, p, 4)
	if ok {
		c.aputv(s, g, t)
	}
	return ok
}
