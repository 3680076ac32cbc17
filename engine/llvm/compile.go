package llvm

import (
	"fmt"
	"strings"

	"verif/engine/term"
	"verif/engine/vm"
)

// X executes functions of a set of modules on a machine.
type X struct {
	// Override replaces C functions by name.
	Override map[string]func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value)

	M       *vm.M
	Mods    []*Module
	funcs   map[*Function]*vm.Func
	globals map[*Global]int
	undef   int
}

func New(m *vm.M, mods []*Module) *X {
	return &X{M: m, Mods: mods, funcs: map[*Function]*vm.Func{}, globals: map[*Global]int{}}
}

// Lookup finds a defined function by name, preferring external linkage.
func (x *X) Lookup(name string) *Function {
	var in *Function
	for _, m := range x.Mods {
		if f := m.Funcs[name]; f != nil {
			if !f.Internal {
				return f
			}
			in = f
		}
	}
	return in
}

func (x *X) callee(m *Module, name string) *Function {
	if f := m.Funcs[name]; f != nil {
		return f
	}
	for _, o := range x.Mods {
		if f := o.Funcs[name]; f != nil && !f.Internal {
			return f
		}
	}
	return nil
}

// Call runs f.
func (x *X) Call(s *vm.State, f *Function, args []vm.Value) (*vm.State, []vm.Value) {
	return x.M.Exec(x.compile(f), s, args, nil)
}

func (x *X) undefTerm(w int) *term.Term {
	x.undef++
	return x.M.C.Var(fmt.Sprintf("undef_%d", x.undef), uint8(w))
}

// globalObj allocates a global on first use.
func (x *X) globalObj(m *Module, name string) (int, bool) {
	g := m.Globals[name]
	if g == nil || g.Init == nil {
		for _, o := range x.Mods {
			if h := o.Globals[name]; h != nil && h.Init != nil && !h.Internal {
				g = h
			}
		}
	}
	if g == nil || g.Init == nil {
		return 0, false
	}
	if id, ok := x.globals[g]; ok {
		return id, true
	}
	id := x.M.AllocStatic(nil, "C global "+name, g.Const)
	x.globals[g] = id
	o := x.M.Static[id]
	o.Shared = true
	o.Cells = x.constCells(g.Mod, g.Init)
	return id, true
}

// Global finds a global's object and type (for harnesses).
func (x *X) Global(name string) (int, *Module, *Type, bool) {
	for _, m := range x.Mods {
		if g := m.Globals[name]; g != nil && g.Init != nil {
			id, ok := x.globalObj(m, name)
			return id, m, g.T, ok
		}
	}
	return 0, nil, nil, false
}

func (x *X) constCells(m *Module, o *Operand) []vm.Cell {
	t := m.resolve(o.T)
	size, _ := m.layout(t)
	switch o.K {
	case "zero", "null":
		return x.M.ZeroCells(int(size))
	case "undef":
		return x.M.ZeroCells(int(size))
	case "str":
		cs := x.M.ZeroCells(int(size))
		for i := 0; i < len(o.S) && i < len(cs); i++ {
			cs[i] = vm.Cell{V: x.M.C.Const(8, uint64(o.S[i]))}
		}
		return cs
	case "int":
		return x.M.CellsOf(x.M.C.Const(uint8(8*size), o.V&term.Mask(uint8(t.W))), int(size))
	case "global", "gep":
		return x.M.CellsOf(x.constVal(m, o), int(size))
	case "agg":
		cs := x.M.ZeroCells(int(size))
		for i, e := range o.Els {
			var off int64
			if t.K == "array" {
				es, _ := m.layout(t.Elem)
				off = es * int64(i)
			} else {
				off, _ = m.field(t, i)
			}
			copy(cs[off:], x.constCells(m, e))
		}
		return cs
	}
	vm.Unsupported("constant %s", o.K)
	return nil
}

func (x *X) constVal(m *Module, o *Operand) vm.Value {
	t := m.resolve(o.T)
	switch o.K {
	case "int":
		return x.M.C.Const(uint8(t.W), o.V)
	case "null":
		return vm.Ptr{}
	case "zero":
		if t.K == "ptr" {
			return vm.Ptr{}
		}
		return x.M.C.Const(uint8(t.W), 0)
	case "undef":
		if t.K == "ptr" {
			return vm.Ptr{}
		}
		if t.K == "int" && t.W <= 64 {
			return x.undefTerm(t.W)
		}
	case "global":
		if id, ok := x.globalObj(m, o.S); ok {
			return vm.Ptr{Obj: id}
		}
		if f := x.callee(m, o.S); f != nil {
			return &vm.Closure{Fn: f}
		}
		vm.Unsupported("external symbol %s", o.S)
	case "gep":
		p, ok := x.constVal(m, o.Els[0]).(vm.Ptr)
		if !ok {
			vm.Unsupported("constant address")
		}
		var ix []int64
		for _, e := range o.Els[1:] {
			ix = append(ix, sgn(x.M.C.Const(uint8(m.resolve(e.T).W), e.V)))
		}
		p.Off += x.gep(m, o.Src, ix)
		return p
	}
	vm.Unsupported("constant of kind %s", o.K)
	return nil
}

func sgn(t *term.Term) int64 { return int64(t.A<<(64-t.W)) >> (64 - t.W) }

func (x *X) gep(m *Module, src *Type, ix []int64) int64 {
	s, _ := m.layout(src)
	off := s * ix[0]
	t := m.resolve(src)
	for _, k := range ix[1:] {
		switch t.K {
		case "array":
			es, _ := m.layout(t.Elem)
			off += es * k
			t = m.resolve(t.Elem)
		case "struct":
			o, e := m.field(t, int(k))
			off += o
			t = m.resolve(e)
		default:
			vm.Unsupported("indexing into %s", t.K)
		}
	}
	return off
}

type fc struct {
	x    *X
	m    *Module
	f    *Function
	regs map[string]int
	blk  map[string]int
}

func (c *fc) reg(n string) int {
	r, ok := c.regs[n]
	if !ok {
		r = len(c.regs)
		c.regs[n] = r
	}
	return r
}

// get returns the reader of an operand and the register it comes from (-1).
func (c *fc) get(o *Operand) (func(s *vm.State) vm.Value, int) {
	if o.K == "reg" {
		r := c.reg(o.S)
		return func(s *vm.State) vm.Value { return s.Regs[r] }, r
	}
	if o.K == "undef" {
		return func(s *vm.State) vm.Value { return c.x.constVal(c.m, o) }, -1
	}
	var v vm.Value
	done := false
	return func(s *vm.State) vm.Value {
		if !done {
			v, done = c.x.constVal(c.m, o), true
		}
		return v
	}, -1
}

func (x *X) compile(f *Function) *vm.Func {
	if v := x.funcs[f]; v != nil {
		return v
	}
	if f.Unsupported != "" {
		vm.Unsupported("C function outside the supported subset: %s", f.Unsupported)
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				vm.Unsupported("C function %s: %s", f.Name, string(e))
			}
			panic(r)
		}
	}()
	c := &fc{x: x, m: f.Mod, f: f, regs: map[string]int{}, blk: map[string]int{}}
	vf := &vm.Func{Name: "C." + f.Name}
	for _, p := range f.Params {
		vf.Params = append(vf.Params, c.reg(p))
	}
	for i, b := range f.Blocks {
		c.blk[b.Name] = i
	}
	for _, b := range f.Blocks {
		vb := &vm.Block{}
		for _, in := range b.Ins {
			if in.Op == "phi" {
				continue
			}
			vi := c.inst(in, vb)
			if vi != nil {
				vi.Pos = fmt.Sprintf("C function %s (IR line %d of %s)", f.Name, in.Line, f.Mod.Name)
				vb.Ins = append(vb.Ins, *vi)
			}
		}
		for _, si := range vb.Succs {
			var ph []vm.PhiCopy
			for _, in := range f.Blocks[si].Ins {
				if in.Op != "phi" {
					break
				}
				found := false
				for k, l := range in.Labs {
					if l == b.Name {
						g, u := c.get(in.Ops[k])
						ph = append(ph, vm.PhiCopy{Dst: c.reg(in.Dst), Use: u, Src: func(r *vm.Run, s *vm.State) vm.Value { return g(s) }})
						found = true
						break
					}
				}
				if !found {
					vm.Unsupported("phi without a value for %s in %s", b.Name, f.Name)
				}
			}
			vb.Phis = append(vb.Phis, ph)
		}
		vf.Blocks = append(vf.Blocks, vb)
	}
	vf.NRegs = len(c.regs)
	x.funcs[f] = vf
	return vf
}

// mk builds an instruction whose operands are evaluated first; values that are
// a choice (VIte) are resolved by forking when they sit in a register.
func (c *fc) mk(dst string, ops []*Operand, ex func(r *vm.Run, s *vm.State, a []vm.Value, regs []int) (vm.Value, vm.Ctl)) *vm.Instr {
	gs := make([]func(*vm.State) vm.Value, len(ops))
	us := make([]int, len(ops))
	vi := &vm.Instr{Def: -1}
	for i, o := range ops {
		gs[i], us[i] = c.get(o)
		if us[i] >= 0 {
			vi.Use = append(vi.Use, us[i])
		}
	}
	if dst != "" {
		vi.Def = c.reg(dst)
	}
	d := vi.Def
	vi.Exec = func(r *vm.Run, s *vm.State) vm.Ctl {
		a := make([]vm.Value, len(gs))
		for i, g := range gs {
			a[i] = g(s)
			if v, ok := a[i].(*vm.VIte); ok {
				if us[i] < 0 {
					vm.Unsupported("choice in a constant")
				}
				k := us[i]
				return r.Split(s, v.C, func(s *vm.State) { s.Regs[k] = v.A }, func(s *vm.State) { s.Regs[k] = v.B })
			}
		}
		v, ctl := ex(r, s, a, us)
		if ctl == vm.Next && d >= 0 {
			s.Regs[d] = v
		}
		return ctl
	}
	return vi
}

func asTerm(v vm.Value) *term.Term {
	t, ok := v.(*term.Term)
	if !ok {
		vm.Unsupported("arithmetic on %s", vm.Describe(v))
	}
	return t
}

func asPtr(v vm.Value) vm.Ptr {
	switch p := v.(type) {
	case vm.Ptr:
		return p
	case *term.Term:
		if p.IsConst() {
			return vm.Ptr{Off: int64(p.A)}
		}
	}
	vm.Unsupported("pointer value %s", vm.Describe(v))
	return vm.Ptr{}
}

var binOps = map[string]term.Op{"mul": term.OMul, "udiv": term.OUDiv, "sdiv": term.OSDiv, "urem": term.OURem, "srem": term.OSRem, "shl": term.OShl, "lshr": term.OLShr, "ashr": term.OAShr}

func (c *fc) inst(in *Inst, vb *vm.Block) *vm.Instr {
	x, m, C := c.x, c.m, c.x.M.C
	switch in.Op {
	case "add", "sub", "and", "or", "xor", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr":
		t := m.resolve(in.T)
		if t.K != "int" || t.W > 64 {
			vm.Unsupported("%s on %s%s", in.Op, t.K, t.Spell)
		}
		op := in.Op
		return c.mk(in.Dst, in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			p, pok := a[0].(vm.Ptr)
			q, qok := a[1].(vm.Ptr)
			if pok || qok {
				switch {
				case op == "sub" && pok && qok && p.Obj == q.Obj:
					return C.Const(64, uint64(p.Off-q.Off)), vm.Next
				case op == "add" && pok && !qok && asTerm(a[1]).IsConst():
					return vm.Ptr{Obj: p.Obj, Off: p.Off + int64(asTerm(a[1]).A)}, vm.Next
				case op == "sub" && pok && !qok && asTerm(a[1]).IsConst():
					return vm.Ptr{Obj: p.Obj, Off: p.Off - int64(asTerm(a[1]).A)}, vm.Next
				}
				vm.Unsupported("arithmetic on an address")
			}
			u, v := asTerm(a[0]), asTerm(a[1])
			switch op {
			case "add":
				return C.Add(u, v), vm.Next
			case "sub":
				return C.Sub(u, v), vm.Next
			case "and":
				return C.And(u, v), vm.Next
			case "or":
				return C.Or(u, v), vm.Next
			case "xor":
				return C.Xor(u, v), vm.Next
			case "mul":
				return C.Mul(u, v), vm.Next
			case "udiv", "sdiv", "urem", "srem":
				if v.IsConst() && v.A == 0 {
					x.M.Panic(s, "division by zero in C")
					return nil, vm.Done
				}
			}
			return C.Bin(binOps[op], u, v), vm.Next
		})
	case "icmp":
		pred := in.Pred
		return c.mk(in.Dst, in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			u, uok := a[0].(*term.Term)
			v, vok := a[1].(*term.Term)
			if !uok || !vok {
				return x.ptrCmp(pred, a[0], a[1]), vm.Next
			}
			return cmp(C, pred, u, v), vm.Next
		})
	case "zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr":
		t := m.resolve(in.T)
		op := in.Op
		if t.K == "other" || t.K == "int" && t.W > 64 {
			vm.Unsupported("conversion to %s", t.Spell)
		}
		return c.mk(in.Dst, in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			switch op {
			case "zext":
				return C.ZExt(asTerm(a[0]), uint8(t.W)), vm.Next
			case "sext":
				return C.SExt(asTerm(a[0]), uint8(t.W)), vm.Next
			case "trunc":
				return C.Extract(asTerm(a[0]), uint8(t.W-1), 0), vm.Next
			case "ptrtoint":
				if t.W != 64 {
					vm.Unsupported("narrow pointer conversion")
				}
			}
			return a[0], vm.Next
		})
	case "alloca":
		sz, _ := m.layout(in.T)
		return c.mk(in.Dst, in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			n := int64(1)
			if len(a) > 0 {
				k := asTerm(a[0])
				if !k.IsConst() {
					vm.Unsupported("variable-length array")
				}
				n = int64(k.A)
			}
			cs := make([]vm.Cell, sz*n)
			for i := range cs {
				cs[i] = vm.Cell{V: x.undefTerm(8)}
			}
			return vm.Ptr{Obj: x.M.AllocCells(s, cs, "C local of "+c.f.Name)}, vm.Next
		})
	case "load":
		t := m.resolve(in.T)
		sz, _ := m.layout(t)
		if t.K != "int" && t.K != "ptr" {
			vm.Unsupported("load of %s", t.K)
		}
		return c.mk(in.Dst, in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			cs, ok := x.M.LoadCells(s, asPtr(a[0]), int(sz))
			if !ok {
				return nil, vm.Done
			}
			if t.K == "ptr" || t.W == 64 {
				v := x.M.WordFromCells(cs)
				if tt, ok := v.(*term.Term); ok && t.K == "ptr" {
					if !tt.IsConst() {
						vm.Unsupported("pointer loaded from plain bytes")
					}
					return vm.Ptr{Off: int64(tt.A)}, vm.Next
				}
				return v, vm.Next
			}
			v := x.M.TermFromCells(cs)
			if int(v.W) > t.W {
				v = C.Extract(v, uint8(t.W-1), 0)
			}
			return v, vm.Next
		})
	case "store":
		t := m.resolve(in.Ops[0].T)
		sz, _ := m.layout(t)
		if t.K != "int" && t.K != "ptr" {
			vm.Unsupported("store of %s", t.K)
		}
		return c.mk("", in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			v := a[0]
			if tt, ok := v.(*term.Term); ok && int64(tt.W) < 8*sz {
				v = C.ZExt(tt, uint8(8*sz))
			}
			if !x.M.StoreVal(s, asPtr(a[1]), v, int(sz)) {
				return nil, vm.Done
			}
			return nil, vm.Next
		})
	case "getelementptr":
		src := in.T
		return c.mk(in.Dst, in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, us []int) (vm.Value, vm.Ctl) {
			ix := make([]int64, len(a)-1)
			for i, v := range a[1:] {
				t := asTerm(v)
				if !t.IsConst() {
					k := us[i+1]
					if k < 0 {
						vm.Unsupported("symbolic constant index")
					}
					return nil, r.Concretise(s, t, func(u *vm.State, kk *term.Term) { u.Regs[k] = kk }, 512)
				}
				ix[i] = sgn(t)
			}
			p := asPtr(a[0])
			return vm.Ptr{Obj: p.Obj, Off: p.Off + x.gep(m, src, ix)}, vm.Next
		})
	case "select":
		return c.mk(in.Dst, in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			t := asTerm(a[0])
			if t.IsConst() {
				return a[2-int(t.A)], vm.Next
			}
			return x.M.MergeVal(t, a[1], a[2]), vm.Next
		})
	case "br":
		if len(in.Labs) == 1 {
			vb.Succs = []int{c.block(in.Labs[0])}
			return c.mk("", nil, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
				r.Goto(s, 0)
				return nil, vm.Done
			})
		}
		vb.Succs = []int{c.block(in.Labs[0]), c.block(in.Labs[1])}
		return c.mk("", in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			return nil, r.Branch(s, asTerm(a[0]), 0, 1)
		})
	case "switch":
		// distinct successors, so that phi copies are per edge
		for _, l := range in.Labs {
			vb.Succs = append(vb.Succs, c.block(l))
		}
		t := m.resolve(in.Ops[0].T)
		return c.mk("", in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, us []int) (vm.Value, vm.Ctl) {
			v := asTerm(a[0])
			if v.IsConst() {
				for i, k := range in.Cases {
					if k&term.Mask(uint8(t.W)) == v.A {
						r.Goto(s, i+1)
						return nil, vm.Done
					}
				}
				r.Goto(s, 0)
				return nil, vm.Done
			}
			var none []*term.Term
			for i, k := range in.Cases {
				e := C.Eq(v, C.Const(v.W, k))
				none = append(none, C.Not(e))
				n := s.Clone()
				if x.M.Assume(n, e) {
					r.Goto(n, i+1)
				}
			}
			if x.M.Assume(s, C.And(none...)) {
				r.Goto(s, 0)
			}
			return nil, vm.Done
		})
	case "ret":
		return c.mk("", in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			r.Return(s, append([]vm.Value(nil), a...))
			return nil, vm.Done
		})
	case "unreachable":
		return c.mk("", nil, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			x.M.Panic(s, "undefined behaviour: unreachable code reached in C function "+c.f.Name)
			return nil, vm.Done
		})
	case "call":
		return c.call(in)
	}
	vm.Unsupported("LLVM instruction %s", in.Op)
	return nil
}

func (c *fc) block(l string) int {
	b, ok := c.blk[l]
	if !ok {
		vm.Unsupported("unknown block %s in %s", l, c.f.Name)
	}
	return b
}

func cmp(C *term.Ctx, pred string, u, v *term.Term) *term.Term {
	switch pred {
	case "eq":
		return C.Eq(u, v)
	case "ne":
		return C.Not(C.Eq(u, v))
	case "ult":
		return C.Ult(u, v)
	case "ule":
		return C.Ule(u, v)
	case "ugt":
		return C.Ult(v, u)
	case "uge":
		return C.Ule(v, u)
	case "slt":
		return C.Slt(u, v)
	case "sle":
		return C.Sle(u, v)
	case "sgt":
		return C.Slt(v, u)
	case "sge":
		return C.Sle(v, u)
	}
	vm.Unsupported("comparison %s", pred)
	return nil
}

func (x *X) ptrCmp(pred string, a, b vm.Value) *term.Term {
	C := x.M.C
	_, ca := a.(*vm.Closure)
	_, cb := b.(*vm.Closure)
	if ca || cb {
		same := false
		if ca && cb {
			same = a.(*vm.Closure).Fn == b.(*vm.Closure).Fn
		}
		switch pred {
		case "eq":
			return C.Bool(same)
		case "ne":
			return C.Bool(!same)
		}
		vm.Unsupported("ordering of function pointers")
	}
	p, q := asPtr(a), asPtr(b)
	if p.Obj == q.Obj {
		return cmp(C, pred, C.Const(64, uint64(p.Off)), C.Const(64, uint64(q.Off)))
	}
	switch pred {
	case "eq":
		return C.False()
	case "ne":
		return C.True()
	}
	vm.Unsupported("ordering of unrelated pointers")
	return nil
}

func (c *fc) call(in *Inst) *vm.Instr {
	x, C := c.x, c.x.M.C
	callee := in.Ops[0]
	ret := func(s, st *vm.State, rs []vm.Value) (vm.Value, vm.Ctl) {
		if st == nil {
			return nil, vm.Done
		}
		if st != s {
			*s = *st
		}
		if len(rs) > 0 {
			return rs[0], vm.Next
		}
		return nil, vm.Next
	}
	if callee.K == "global" {
		name := callee.S
		if ov := x.Override[name]; ov != nil {
			return c.mk(in.Dst, in.Ops[1:], func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
				st, rs := ov(s, a)
				return ret(s, st, rs)
			})
		}
		if f := x.callee(c.m, name); f != nil {
			return c.mk(in.Dst, in.Ops[1:], func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
				st, rs := x.Call(s, f, a)
				return ret(s, st, rs)
			})
		}
		base := name
		if strings.HasPrefix(name, "llvm.") {
			p := strings.Split(name, ".")
			base = "llvm." + p[1]
			if p[1] == "lifetime" || p[1] == "dbg" || p[1] == "invariant" {
				return nil
			}
			if p[1] == "assume" || p[1] == "experimental" {
				return nil
			}
		}
		ops := in.Ops[1:]
		switch base {
		case "llvm.memcpy", "llvm.memmove", "memcpy", "memmove":
			return c.mk(in.Dst, ops, func(r *vm.Run, s *vm.State, a []vm.Value, us []int) (vm.Value, vm.Ctl) {
				n := asTerm(a[2])
				if !n.IsConst() {
					k := us[2]
					return nil, r.Concretise(s, n, func(u *vm.State, kk *term.Term) { u.Regs[k] = kk }, 256)
				}
				if n.A == 0 {
					return a[0], vm.Next
				}
				if n.A > 1<<20 {
					x.M.Panic(s, fmt.Sprintf("copy of %d bytes in C", n.A))
					return nil, vm.Done
				}
				cs, ok := x.M.LoadCells(s, asPtr(a[1]), int(n.A))
				if !ok {
					return nil, vm.Done
				}
				if !x.M.StoreCells(s, asPtr(a[0]), append([]vm.Cell(nil), cs...)) {
					return nil, vm.Done
				}
				return a[0], vm.Next
			})
		case "llvm.memset", "memset":
			return c.mk(in.Dst, ops, func(r *vm.Run, s *vm.State, a []vm.Value, us []int) (vm.Value, vm.Ctl) {
				n := asTerm(a[2])
				if !n.IsConst() {
					k := us[2]
					return nil, r.Concretise(s, n, func(u *vm.State, kk *term.Term) { u.Regs[k] = kk }, 256)
				}
				if n.A > 1<<20 {
					x.M.Panic(s, fmt.Sprintf("fill of %d bytes in C", n.A))
					return nil, vm.Done
				}
				b := C.Extract(asTerm(a[1]), 7, 0)
				cs := make([]vm.Cell, n.A)
				for i := range cs {
					cs[i] = vm.Cell{V: b}
				}
				if len(cs) > 0 && !x.M.StoreCells(s, asPtr(a[0]), cs) {
					return nil, vm.Done
				}
				return a[0], vm.Next
			})
		case "memcmp", "bcmp":
			return c.mk(in.Dst, ops, func(r *vm.Run, s *vm.State, a []vm.Value, us []int) (vm.Value, vm.Ctl) {
				n := asTerm(a[2])
				if !n.IsConst() || n.A > 4096 {
					vm.Unsupported("memcmp of symbolic length")
				}
				if n.A == 0 {
					return C.Const(32, 0), vm.Next
				}
				p, ok := x.M.LoadCells(s, asPtr(a[0]), int(n.A))
				q, ok2 := x.M.LoadCells(s, asPtr(a[1]), int(n.A))
				if !ok || !ok2 {
					return nil, vm.Done
				}
				res := C.Const(32, 0)
				for i := len(p) - 1; i >= 0; i-- {
					u, v := x.M.TermFromCells(p[i:i+1]), x.M.TermFromCells(q[i:i+1])
					d := C.Ite(C.Ult(u, v), C.Const(32, ^uint64(0)), C.Const(32, 1))
					res = C.Ite(C.Eq(u, v), res, d)
				}
				return res, vm.Next
			})
		case "abort", "llvm.trap", "__assert_fail", "exit", "_exit":
			return c.mk("", nil, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
				x.M.Panic(s, base+" called in C function "+c.f.Name)
				return nil, vm.Done
			})
		case "llvm.fshl", "llvm.fshr":
			return c.mk(in.Dst, ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
				u, v, k := asTerm(a[0]), asTerm(a[1]), asTerm(a[2])
				w := uint64(u.W)
				if k.IsConst() {
					n := k.A % w
					if base == "llvm.fshr" {
						n = (w - n) % w
						if n == 0 {
							return v, vm.Next
						}
					}
					if n == 0 {
						return u, vm.Next
					}
					return C.Concat(C.Extract(u, uint8(w-1-n), 0), C.Extract(v, uint8(w-1), uint8(w-n))), vm.Next
				}
				kk := C.Bin(term.OURem, k, C.Const(u.W, w))
				z := C.Eq(kk, C.Const(u.W, 0))
				inv := C.Sub(C.Const(u.W, w), kk)
				if base == "llvm.fshl" {
					return C.Ite(z, u, C.Or(C.Bin(term.OShl, u, kk), C.Bin(term.OLShr, v, inv))), vm.Next
				}
				return C.Ite(z, v, C.Or(C.Bin(term.OShl, u, inv), C.Bin(term.OLShr, v, kk))), vm.Next
			})
		case "llvm.bswap":
			return c.mk(in.Dst, ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
				u := asTerm(a[0])
				var ps []*term.Term
				for i := uint8(0); i < u.W; i += 8 {
					ps = append(ps, C.Extract(u, i+7, i))
				}
				return C.Concat(ps...), vm.Next
			})
		case "llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax":
			return c.mk(in.Dst, ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
				u, v := asTerm(a[0]), asTerm(a[1])
				var lt *term.Term
				if base[5] == 'u' {
					lt = C.Ult(u, v)
				} else {
					lt = C.Slt(u, v)
				}
				if strings.HasSuffix(base, "min") {
					return C.Ite(lt, u, v), vm.Next
				}
				return C.Ite(lt, v, u), vm.Next
			})
		}
		return c.mk("", nil, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
			vm.Unsupported("call of external C function %s", name)
			return nil, vm.Done
		})
	}
	return c.mk(in.Dst, in.Ops, func(r *vm.Run, s *vm.State, a []vm.Value, _ []int) (vm.Value, vm.Ctl) {
		cl, ok := a[0].(*vm.Closure)
		if !ok {
			if p, ok := a[0].(vm.Ptr); ok && p.Obj == 0 {
				x.M.Panic(s, "call of a null function pointer in C")
				return nil, vm.Done
			}
			vm.Unsupported("call through %s", vm.Describe(a[0]))
		}
		st, rs := x.Call(s, cl.Fn.(*Function), a[1:])
		return ret(s, st, rs)
	})
}
