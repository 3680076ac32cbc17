package gossa

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"verif/engine/term"
	"verif/engine/vm"
)

// X executes Go code of one program on one machine.
type X struct {
	P *Prog
	M *vm.M

	fns     map[*ssa.Function]*vm.Func
	globals map[*ssa.Global]int
	strs    map[string]int
	canon   typeutil.Map
	inited  map[*ssa.Package]bool

	// Intrinsics by full function name.
	Intrinsics map[string]Intrinsic
	// Bodiless is called for functions without a Go body.
	Bodiless func(x *X, r *vm.Run, s *vm.State, fn *ssa.Function, args []vm.Value) (*vm.State, []vm.Value, bool)
	// Stub may replace a function of the module.
	Stub func(fn *ssa.Function) Intrinsic

	CPU    func(feature string) *term.Term
	opaque int
}

// Intrinsic executes on s and returns the state to continue with (nil: dead)
// and the results.
type Intrinsic func(x *X, s *vm.State, args []vm.Value) (*vm.State, []vm.Value)

func NewX(p *Prog, m *vm.M) *X {
	x := &X{P: p, M: m, fns: map[*ssa.Function]*vm.Func{}, globals: map[*ssa.Global]int{}, strs: map[string]int{}, inited: map[*ssa.Package]bool{}, Intrinsics: map[string]Intrinsic{}}
	x.canon.SetHasher(typeutil.MakeHasher())
	return x
}

func (x *X) typ(t types.Type) types.Type {
	if c := x.canon.At(t); c != nil {
		return c.(types.Type)
	}
	x.canon.Set(t, t)
	return t
}

func (x *X) size(t types.Type) int { return int(x.P.Sizes.Sizeof(t)) }

func basic(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func (x *X) intType(t types.Type) (w uint8, signed bool, ok bool) {
	b := basic(t)
	if b == nil {
		return
	}
	if b.Info()&types.IsBoolean != 0 {
		return 1, false, true
	}
	if b.Info()&types.IsInteger == 0 {
		return
	}
	if b.Kind() == types.UntypedInt || b.Kind() == types.UntypedRune {
		return uint8(8 * x.P.PtrSize), true, true
	}
	return uint8(8 * x.size(t)), b.Info()&types.IsUnsigned == 0, true
}

// fromCells interprets cells as a value of type t.
func (x *X) fromCells(t types.Type, cs []vm.Cell) vm.Value {
	m := x.M
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.C.Extract(m.TermFromCells(cs), 0, 0)
		case u.Kind() == types.Uintptr:
			return m.WordFromCells(cs)
		case u.Info()&types.IsInteger != 0:
			return m.TermFromCells(cs)
		case u.Info()&types.IsString != 0:
			return m.Frag(cs, vm.Str{})
		case u.Kind() == types.UnsafePointer:
			return toPtr(m.WordFromCells(cs))
		case u.Info()&types.IsFloat != 0:
			return m.TermFromCells(cs)
		}
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
		return toPtr(m.WordFromCells(cs))
	case *types.Slice:
		return m.Frag(cs, vm.Slice{})
	case *types.Interface:
		return m.Frag(cs, vm.Iface{})
	case *types.Array, *types.Struct:
		return &vm.Raw{Cells: append([]vm.Cell(nil), cs...)}
	}
	vm.Unsupported("load of type %s", t)
	return nil
}

func toPtr(v vm.Value) vm.Value {
	if t, ok := v.(*term.Term); ok {
		if t.IsConst() {
			return vm.Ptr{Off: int64(t.A)}
		}
		vm.Unsupported("symbolic pointer")
	}
	return v
}

func (x *X) toCells(t types.Type, v vm.Value) []vm.Cell {
	if r, ok := v.(*vm.Raw); ok {
		return r.Cells
	}
	n := x.size(t)
	if n == 0 {
		return nil
	}
	if v == nil {
		vm.Unsupported("store of an undefined value")
	}
	return x.M.CellsOf(v, n)
}

func (x *X) zero(t types.Type) vm.Value {
	n := x.size(t)
	return x.fromCells(t, x.M.ZeroCells(n))
}

func (x *X) strConst(s string) vm.Value {
	if len(s) == 0 {
		return vm.Str{}
	}
	id, ok := x.strs[s]
	if !ok {
		cs := make([]vm.Cell, len(s))
		for i := range cs {
			cs[i] = vm.Cell{V: x.M.C.Const(8, uint64(s[i]))}
		}
		id = x.M.AllocStatic(cs, "string constant", true)
		x.strs[s] = id
	}
	return vm.Str{P: vm.Ptr{Obj: id}, Len: int64(len(s))}
}

func (x *X) constVal(c *ssa.Const) vm.Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.Tuple); ok {
			return &vm.Tuple{}
		}
		return x.zero(t)
	}
	if w, _, ok := x.intType(t); ok {
		if w == 1 {
			return x.M.C.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return x.M.C.Const(w, uint64(i))
		}
		if u, ok := constant.Uint64Val(v); ok {
			return x.M.C.Const(w, u)
		}
		vm.Unsupported("constant %s", c)
	}
	if b := basic(t); b != nil && b.Info()&types.IsString != 0 {
		return x.strConst(constant.StringVal(c.Value))
	}
	if b := basic(t); b != nil && b.Info()&types.IsFloat != 0 {
		return x.M.C.Const(uint8(8*x.size(t)), 0) // floats are only carried around
	}
	vm.Unsupported("constant of type %s", t)
	return nil
}

func (x *X) inModule(pk *types.Package) bool {
	if pk == nil {
		return false
	}
	p := pk.Path()
	return p == x.P.Module || strings.HasPrefix(p, x.P.Module+"/")
}

func (x *X) global(g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	cs := x.M.ZeroCells(x.size(t))
	if !x.inModule(g.Pkg.Pkg) {
		// a package-level variable of another package: only error values are modelled
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			cs = x.toCells(t, x.opaqueError(g.String()))
		} else {
			// its bytes may be copied but not looked at
			for i := range cs {
				cs[i] = vm.Cell{V: opaqueByte{}}
			}
		}
	}
	id := x.M.AllocStatic(cs, "global "+g.String(), false)
	x.M.Static[id].Shared = true
	x.globals[g] = id
	return id
}

type opaqueByte struct{}

func (x *X) opaqueError(name string) vm.Value {
	t := types.NewPointer(types.Typ[types.Int8])
	id := x.M.AllocStatic(x.M.ZeroCells(8), "opaque "+name, true)
	return vm.Iface{Typ: x.typ(t), Val: vm.Ptr{Obj: id}}
}

type fc struct {
	x    *X
	fn   *ssa.Function
	regs map[ssa.Value]int
	out  *vm.Func
}

type getter func(s *vm.State) vm.Value

func (f *fc) reg(v ssa.Value) int {
	if r, ok := f.regs[v]; ok {
		return r
	}
	r := f.out.NRegs
	f.out.NRegs++
	f.regs[v] = r
	return r
}

// operand returns a getter and the register it reads (-1: none).
func (f *fc) operand(v ssa.Value) (getter, int) {
	switch c := v.(type) {
	case *ssa.Const:
		k := f.x.constVal(c)
		return func(*vm.State) vm.Value { return k }, -1
	case *ssa.Global:
		k := vm.Ptr{Obj: f.x.global(c)}
		return func(*vm.State) vm.Value { return k }, -1
	case *ssa.Function:
		k := &vm.Closure{Fn: c}
		return func(*vm.State) vm.Value { return k }, -1
	case *ssa.Builtin:
		return func(*vm.State) vm.Value { vm.Unsupported("builtin value"); return nil }, -1
	}
	r := f.reg(v)
	return func(s *vm.State) vm.Value { return s.Regs[r] }, r
}

// Compile translates a function.
func (x *X) Compile(fn *ssa.Function) *vm.Func {
	if f, ok := x.fns[fn]; ok {
		return f
	}
	x.P.build(fn)
	if len(fn.Blocks) == 0 {
		vm.Unsupported("function %s has no Go body", fn)
	}
	f := &fc{x: x, fn: fn, regs: map[ssa.Value]int{}, out: &vm.Func{Name: fn.String()}}
	x.fns[fn] = f.out
	for _, p := range fn.Params {
		f.out.Params = append(f.out.Params, f.reg(p))
	}
	for _, p := range fn.FreeVars {
		f.out.Params = append(f.out.Params, f.reg(p))
	}
	for _, b := range fn.Blocks {
		vb := &vm.Block{}
		f.out.Blocks = append(f.out.Blocks, vb)
		for _, s := range b.Succs {
			vb.Succs = append(vb.Succs, s.Index)
		}
	}
	for _, b := range fn.Blocks {
		vb := f.out.Blocks[b.Index]
		for si, s := range b.Succs {
			// which predecessor edge of s is this?
			nth := 0
			for k := 0; k < si; k++ {
				if b.Succs[k] == s {
					nth++
				}
			}
			pi := -1
			for k, p := range s.Preds {
				if p == b {
					if nth == 0 {
						pi = k
						break
					}
					nth--
				}
			}
			var ph []vm.PhiCopy
			for _, in := range s.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				g, use := f.operand(p.Edges[pi])
				ph = append(ph, vm.PhiCopy{Dst: f.reg(p), Src: func(_ *vm.Run, s *vm.State) vm.Value { return g(s) }, Use: use})
			}
			vb.Phis = append(vb.Phis, ph)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			vi := f.instr(in)
			if p := in.Pos(); p.IsValid() {
				ps := x.P.Prog.Fset.Position(p)
				vi.Pos = fmt.Sprintf("%s:%d", shortPath(ps.Filename), ps.Line)
			}
			vb.Ins = append(vb.Ins, vi)
		}
	}
	return f.out
}

func shortPath(p string) string { return strings.TrimPrefix(p, "/repo/") }

type execFn = func(*vm.Run, *vm.State) vm.Ctl

// mk builds an instruction; strict operands are forked when they are choices.
func (f *fc) mk(def ssa.Value, ops []ssa.Value, tolerant bool, body func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl), runBody func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl) vm.Instr {
	var gs []getter
	var rs []int
	var use []int
	for _, o := range ops {
		g, r := f.operand(o)
		gs = append(gs, g)
		rs = append(rs, r)
		if r >= 0 {
			use = append(use, r)
		}
	}
	d := -1
	if def != nil {
		d = f.reg(def)
	}
	n := len(gs)
	return vm.Instr{Use: use, Def: d, Exec: func(r *vm.Run, s *vm.State) vm.Ctl {
		var buf [8]vm.Value
		a := buf[:0]
		if n > 8 {
			a = make([]vm.Value, 0, n)
		}
		for i, g := range gs {
			v := g(s)
			if !tolerant {
				if vi, ok := v.(*vm.VIte); ok {
					reg := rs[i]
					return r.Split(s, vi.C, func(t *vm.State) { t.Regs[reg] = vi.A }, func(t *vm.State) { t.Regs[reg] = vi.B })
				}
			}
			a = append(a, v)
		}
		if runBody != nil {
			return runBody(r, s, a)
		}
		v, c := body(s, a)
		if c == vm.Next && d >= 0 {
			s.Regs[d] = v
		}
		return c
	}}
}

func asTerm(v vm.Value) *term.Term {
	t, ok := v.(*term.Term)
	if !ok {
		vm.Unsupported("integer operation on %s", vm.Describe(v))
	}
	return t
}

func (f *fc) instr(in ssa.Instruction) vm.Instr {
	x := f.x
	m := x.M
	C := m.C
	switch i := in.(type) {
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		n := x.size(t)
		name := f.fn.Name() + "." + i.Comment
		return f.mk(i, nil, true, func(s *vm.State, _ []vm.Value) (vm.Value, vm.Ctl) {
			return vm.Ptr{Obj: m.Alloc(s, n, name)}, vm.Next
		}, nil)
	case *ssa.BinOp:
		return f.binop(i)
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			t := i.Type()
			n := x.size(t)
			if g, ok := i.X.(*ssa.Global); ok && !x.inModule(g.Pkg.Pkg) && !types.Identical(t, types.Universe.Lookup("error").Type()) && n > 0 && !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/klauspost/cpuid") {
				return f.mk(i, nil, true, func(s *vm.State, _ []vm.Value) (vm.Value, vm.Ctl) {
					vm.Unsupported("read of %s", g)
					return nil, vm.Done
				}, nil)
			}
			return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
				p, ok := a[0].(vm.Ptr)
				if !ok {
					vm.Unsupported("dereference of %s", vm.Describe(a[0]))
				}
				cs, ok := m.LoadCells(s, p, n)
				if !ok {
					return nil, vm.Done
				}
				if n == 0 {
					return &vm.Raw{}, vm.Next
				}
				return x.fromCells(t, cs), vm.Next
			}, nil)
		case token.SUB:
			return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
				return C.Neg(asTerm(a[0])), vm.Next
			}, nil)
		case token.NOT, token.XOR:
			return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
				return C.Not(asTerm(a[0])), vm.Next
			}, nil)
		}
		return f.unsupported(in)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		v := in.(ssa.Value)
		var op ssa.Value
		if c, ok := i.(*ssa.ChangeType); ok {
			op = c.X
		} else {
			op = i.(*ssa.ChangeInterface).X
		}
		return f.mk(v, []ssa.Value{op}, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) { return a[0], vm.Next }, nil)
	case *ssa.Convert:
		return f.convert(i)
	case *ssa.MakeInterface:
		t := x.typ(i.X.Type())
		return f.mk(i, []ssa.Value{i.X}, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			return vm.Iface{Typ: t, Val: a[0]}, vm.Next
		}, nil)
	case *ssa.MakeClosure:
		ops := append([]ssa.Value{}, i.Bindings...)
		fn := i.Fn.(*ssa.Function)
		return f.mk(i, ops, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			return &vm.Closure{Fn: fn, Bind: append([]vm.Value(nil), a...)}, vm.Next
		}, nil)
	case *ssa.FieldAddr:
		st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := x.fieldOff(st, i.Field)
		return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			p, ok := a[0].(vm.Ptr)
			if !ok {
				vm.Unsupported("field of %s", vm.Describe(a[0]))
			}
			if p.IsNil() {
				m.Panic(s, "nil pointer dereference")
				return nil, vm.Done
			}
			return vm.Ptr{Obj: p.Obj, Off: p.Off + off}, vm.Next
		}, nil)
	case *ssa.Field:
		st := i.X.Type().Underlying().(*types.Struct)
		off := x.fieldOff(st, i.Field)
		t := i.Type()
		n := int64(x.size(t))
		return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			if n == 0 {
				return &vm.Raw{}, vm.Next
			}
			return x.fromCells(t, a[0].(*vm.Raw).Cells[off:off+n]), vm.Next
		}, nil)
	case *ssa.Index:
		return f.index(i)
	case *ssa.IndexAddr:
		return f.indexAddr(i)
	case *ssa.Lookup:
		if b := basic(i.X.Type()); b != nil {
			return f.strIndex(i, i.X, i.Index)
		}
		return f.mapLookup(i)
	case *ssa.MakeMap:
		return f.makeMap(i)
	case *ssa.MapUpdate:
		return f.mapUpdate(i)
	case *ssa.Slice:
		return f.slice(i)
	case *ssa.SliceToArrayPointer:
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			sl := a[0].(vm.Slice)
			if sl.Len < n {
				m.Panic(s, "slice to array pointer: length out of range")
				return nil, vm.Done
			}
			return sl.P, vm.Next
		}, nil)
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		es := x.size(et)
		lr, cr := f.regOf(i.Len), f.regOf(i.Cap)
		return f.mk(i, []ssa.Value{i.Len, i.Cap}, false, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
			l, c := asTerm(a[0]), asTerm(a[1])
			if !l.IsConst() {
				return r.Concretise(s, l, func(t *vm.State, k *term.Term) { t.Regs[lr] = k }, 600)
			}
			if !c.IsConst() {
				return r.Concretise(s, c, func(t *vm.State, k *term.Term) { t.Regs[cr] = k }, 600)
			}
			ln, cp := sval(l), sval(c)
			if ln < 0 || cp < ln || cp*int64(es) > 1<<24 {
				m.Panic(s, "makeslice: len out of range")
				return vm.Done
			}
			id := m.Alloc(s, int(cp)*es, f.fn.Name()+".makeslice")
			s.Regs[f.regs[i]] = vm.Slice{P: vm.Ptr{Obj: id}, Len: ln, Cap: cp}
			return vm.Next
		})
	case *ssa.Store:
		t := i.Val.Type()
		return f.mkStore(i, t)
	case *ssa.Extract:
		k := i.Index
		return f.mk(i, []ssa.Value{i.Tuple}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			return a[0].(*vm.Tuple).Vs[k], vm.Next
		}, nil)
	case *ssa.TypeAssert:
		return f.typeAssert(i)
	case *ssa.If:
		return f.mk(nil, []ssa.Value{i.Cond}, false, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
			return r.Branch(s, asTerm(a[0]), 0, 1)
		})
	case *ssa.Jump:
		return f.mk(nil, nil, true, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
			r.Goto(s, 0)
			return vm.Done
		})
	case *ssa.Return:
		return f.mk(nil, i.Results, true, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
			r.Return(s, append([]vm.Value(nil), a...))
			return vm.Done
		})
	case *ssa.Panic:
		return f.mk(nil, []ssa.Value{i.X}, true, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
			msg := "explicit panic"
			if ifc, ok := a[0].(vm.Iface); ok {
				if st, ok := ifc.Val.(vm.Str); ok {
					if t, ok := x.ConstString(s, st); ok {
						msg = t
					}
				}
			}
			m.Panic(s, msg)
			return vm.Done
		})
	case *ssa.Call:
		return f.call(i, i.Common(), i)
	case *ssa.Defer:
		return f.deferred(i)
	case *ssa.RunDefers:
		return f.mk(nil, nil, true, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
			for len(s.Defers) > 0 {
				d := s.Defers[len(s.Defers)-1]
				s.Defers = s.Defers[: len(s.Defers)-1 : len(s.Defers)-1]
				n := len(s.Defers)
				d(r, s)
				if len(s.Defers) != n {
					return vm.Done // died
				}
			}
			return vm.Next
		})
	}
	return f.unsupported(in)
}

func (f *fc) regOf(v ssa.Value) int {
	_, r := f.operand(v)
	return r
}

func (f *fc) unsupported(in ssa.Instruction) vm.Instr {
	msg := fmt.Sprintf("instruction %T (%s) in %s", in, in, f.fn)
	var ops []*ssa.Value
	ops = in.Operands(ops)
	vi := vm.Instr{Def: -1, Exec: func(*vm.Run, *vm.State) vm.Ctl { vm.Unsupported("%s", msg); return vm.Done }}
	if v, ok := in.(ssa.Value); ok {
		vi.Def = f.reg(v)
	}
	for _, o := range ops {
		if *o == nil {
			continue
		}
		switch (*o).(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		default:
			vi.Use = append(vi.Use, f.reg(*o))
		}
	}
	return vi
}

func (x *X) fieldOff(st *types.Struct, k int) int64 {
	fs := make([]*types.Var, st.NumFields())
	for i := range fs {
		fs[i] = st.Field(i)
	}
	return x.P.Sizes.Offsetsof(fs)[k]
}

func sval(t *term.Term) int64 { return int64(t.A<<(64-t.W)) >> (64 - t.W) }

func (f *fc) mkStore(i *ssa.Store, t types.Type) vm.Instr {
	x, m := f.x, f.x.M
	ag, ar := f.operand(i.Addr)
	vg, vr := f.operand(i.Val)
	var use []int
	if ar >= 0 {
		use = append(use, ar)
	}
	if vr >= 0 {
		use = append(use, vr)
	}
	return vm.Instr{Use: use, Def: -1, Exec: func(r *vm.Run, s *vm.State) vm.Ctl {
		av := ag(s)
		if vi, ok := av.(*vm.VIte); ok {
			return r.Split(s, vi.C, func(t *vm.State) { t.Regs[ar] = vi.A }, func(t *vm.State) { t.Regs[ar] = vi.B })
		}
		p, ok := av.(vm.Ptr)
		if !ok {
			vm.Unsupported("store through %s", vm.Describe(av))
		}
		if !m.StoreCells(s, p, x.toCells(t, vg(s))) {
			return vm.Done
		}
		return vm.Next
	}}
}

func (f *fc) binop(i *ssa.BinOp) vm.Instr {
	x := f.x
	m := x.M
	C := m.C
	w, signed, isInt := x.intType(i.X.Type())
	if i.Op == token.EQL || i.Op == token.NEQ {
		neg := i.Op == token.NEQ
		t := i.X.Type()
		return f.mk(i, []ssa.Value{i.X, i.Y}, !isInt, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			e := x.equal(s, t, a[0], a[1])
			if neg {
				e = C.Not(e)
			}
			return e, vm.Next
		}, nil)
	}
	if !isInt {
		if b := basic(i.X.Type()); b != nil && b.Info()&types.IsString != 0 && i.Op == token.ADD {
			return f.mk(i, []ssa.Value{i.X, i.Y}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
				p, q := a[0].(vm.Str), a[1].(vm.Str)
				if p.Len == 0 {
					return q, vm.Next
				}
				if q.Len == 0 {
					return p, vm.Next
				}
				c1, _ := m.LoadCells(s, p.P, int(p.Len))
				c2, _ := m.LoadCells(s, q.P, int(q.Len))
				id := m.AllocCells(s, append(append([]vm.Cell{}, c1...), c2...), "string")
				return vm.Str{P: vm.Ptr{Obj: id}, Len: p.Len + q.Len}, vm.Next
			}, nil)
		}
		return f.unsupported(i)
	}
	op := i.Op
	isUintptr := basic(i.X.Type()).Kind() == types.Uintptr
	_, ySigned, _ := x.intType(i.Y.Type())
	return f.mk(i, []ssa.Value{i.X, i.Y}, false, func(s *vm.State, av []vm.Value) (vm.Value, vm.Ctl) {
		if isUintptr {
			if v, ok := ptrArith(C, op, av[0], av[1]); ok {
				return v, vm.Next
			}
			for k := range av {
				if p, ok := av[k].(vm.Ptr); ok && p.Obj == 0 {
					av[k] = C.Const(w, uint64(p.Off))
				}
			}
		}
		a, b := asTerm(av[0]), asTerm(av[1])
		switch op {
		case token.ADD:
			return C.Add(a, b), vm.Next
		case token.SUB:
			return C.Sub(a, b), vm.Next
		case token.MUL:
			return C.Mul(a, b), vm.Next
		case token.AND:
			return C.And(a, b), vm.Next
		case token.OR:
			return C.Or(a, b), vm.Next
		case token.XOR:
			return C.Xor(a, b), vm.Next
		case token.AND_NOT:
			return C.And(a, C.Not(b)), vm.Next
		case token.QUO, token.REM:
			nz := C.Not(C.Eq(b, C.Const(w, 0)))
			if !x.require(s, nz, "integer divide by zero") {
				return nil, vm.Done
			}
			o := term.OUDiv
			switch {
			case op == token.QUO && signed:
				o = term.OSDiv
			case op == token.REM && signed:
				o = term.OSRem
			case op == token.REM:
				o = term.OURem
			}
			return C.Bin(o, a, b), vm.Next
		case token.SHL, token.SHR:
			if ySigned && !b.IsConst() {
				if !x.require(s, C.Not(C.Slt(b, C.Const(b.W, 0))), "negative shift amount") {
					return nil, vm.Done
				}
			}
			if ySigned && b.IsConst() && sval(b) < 0 {
				m.Panic(s, "negative shift amount")
				return nil, vm.Done
			}
			var cnt *term.Term
			switch {
			case b.W == w:
				cnt = b
			case b.W < w:
				cnt = C.ZExt(b, w)
			default:
				cnt = C.Ite(C.Ult(b, C.Const(b.W, uint64(w))), C.Extract(b, w-1, 0), C.Const(w, uint64(w)))
			}
			o := term.OShl
			if op == token.SHR {
				o = term.OLShr
				if signed {
					o = term.OAShr
				}
			}
			return C.Bin(o, a, cnt), vm.Next
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			p, q := a, b
			if op == token.GTR || op == token.LEQ {
				p, q = b, a
			}
			var l *term.Term
			if signed {
				l = C.Slt(p, q)
			} else {
				l = C.Ult(p, q)
			}
			if op == token.LEQ || op == token.GEQ {
				l = C.Not(l)
			}
			return l, vm.Next
		}
		vm.Unsupported("operator %s", op)
		return nil, vm.Done
	}, nil)
}

func ptrArith(C *term.Ctx, op token.Token, a, b vm.Value) (vm.Value, bool) {
	p, pok := a.(vm.Ptr)
	q, qok := b.(vm.Ptr)
	if !pok && !qok {
		return nil, false
	}
	bt, bok := b.(*term.Term)
	at, aok := a.(*term.Term)
	switch {
	case pok && p.Obj != 0 && bok && bt.IsConst():
		switch op {
		case token.ADD:
			return vm.Ptr{Obj: p.Obj, Off: p.Off + sval(bt)}, true
		case token.SUB:
			return vm.Ptr{Obj: p.Obj, Off: p.Off - sval(bt)}, true
		}
	case qok && q.Obj != 0 && aok && at.IsConst() && op == token.ADD:
		return vm.Ptr{Obj: q.Obj, Off: q.Off + sval(at)}, true
	case pok && qok && p.Obj == q.Obj && op == token.SUB:
		return C.Const(64, uint64(p.Off-q.Off)), true
	}
	return nil, false
}

// require records that c must hold here (a run-time panic otherwise) and
// assumes it; false means no path continues.
func (x *X) require(s *vm.State, c *term.Term, msg string) bool {
	if c.IsTrue() {
		return true
	}
	n := x.M.C.Not(c)
	pc := s.PC
	for _, k := range pc {
		if k == c {
			return true
		}
	}
	x.M.Lossy++
	x.M.Asserts = append(x.M.Asserts, vm.Assertion{ID: "panic:" + msg, PC: append(pc[:len(pc):len(pc)], n), Cond: x.M.C.False(), Pos: x.M.Where, Kind: "panic"})
	return x.M.Assume(s, c)
}

func isNil(v vm.Value) (bool, bool) {
	switch p := v.(type) {
	case vm.Ptr:
		return p.IsNil(), true
	case vm.Slice:
		return p.P.IsNil(), true
	case vm.Iface:
		return p.Typ == nil, true
	case *vm.Closure:
		return false, true
	}
	return false, false
}

// equal builds the comparison of two values of type t.
func (x *X) equal(s *vm.State, t types.Type, a, b vm.Value) *term.Term {
	m, C := x.M, x.M.C
	if vi, ok := a.(*vm.VIte); ok {
		return C.Ite(vi.C, x.equal(s, t, vi.A, b), x.equal(s, t, vi.B, b))
	}
	if vi, ok := b.(*vm.VIte); ok {
		return C.Ite(vi.C, x.equal(s, t, a, vi.A), x.equal(s, t, a, vi.B))
	}
	if ta, ok := a.(*term.Term); ok {
		if tb, ok := b.(*term.Term); ok {
			return C.Eq(ta, tb)
		}
		if p, ok := b.(vm.Ptr); ok && ta.IsConst() {
			return C.Bool(p.Obj == 0 && uint64(p.Off) == ta.A)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			p, q := a.(vm.Str), b.(vm.Str)
			if p.Len != q.Len {
				return C.False()
			}
			if p.Len == 0 {
				return C.True()
			}
			ca, _ := m.LoadCells(s, p.P, int(p.Len))
			cb, _ := m.LoadCells(s, q.P, int(q.Len))
			return x.eqCells(ca, cb)
		}
	case *types.Array:
		if u.Len() == 0 {
			return C.True()
		}
		ra, rb := a.(*vm.Raw), b.(*vm.Raw)
		es := x.size(u.Elem())
		var cs []*term.Term
		for i := 0; i < int(u.Len()); i++ {
			cs = append(cs, x.equal(s, u.Elem(), x.fromCells(u.Elem(), ra.Cells[i*es:(i+1)*es]), x.fromCells(u.Elem(), rb.Cells[i*es:(i+1)*es])))
		}
		return C.And(cs...)
	case *types.Struct:
		ra, rb := a.(*vm.Raw), b.(*vm.Raw)
		cs := []*term.Term{C.True()}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			o, n := x.fieldOff(u, i), int64(x.size(ft))
			if n == 0 {
				continue
			}
			cs = append(cs, x.equal(s, ft, x.fromCells(ft, ra.Cells[o:o+n]), x.fromCells(ft, rb.Cells[o:o+n])))
		}
		return C.And(cs...)
	case *types.Interface:
		p, q := a.(vm.Iface), b.(vm.Iface)
		if p.Typ != q.Typ {
			return C.False()
		}
		if p.Typ == nil {
			return C.True()
		}
		return x.equal(s, p.Typ.(types.Type), p.Val, q.Val)
	}
	if na, ok := isNil(a); ok {
		if nb, ok := isNil(b); ok && (na || nb) {
			return C.Bool(na == nb)
		}
	}
	if p, ok := a.(vm.Ptr); ok {
		if q, ok := b.(vm.Ptr); ok {
			return C.Bool(p == q)
		}
	}
	if sameKindComparable(a, b) {
		return C.Bool(a == b)
	}
	vm.Unsupported("comparison of %s and %s", vm.Describe(a), vm.Describe(b))
	return nil
}

func sameKindComparable(a, b vm.Value) bool {
	_, ok1 := a.(*vm.Closure)
	_, ok2 := b.(*vm.Closure)
	return ok1 && ok2
}

func (x *X) eqCells(a, b []vm.Cell) *term.Term {
	C := x.M.C
	var cs []*term.Term
	for i := 0; i < len(a); {
		n := 1
		for _, k := range []int{8, 4, 2} {
			if i+k <= len(a) && i%k == 0 && (isWhole(a[i:i+k]) || isWhole(b[i:i+k])) {
				n = k
				break
			}
		}
		cs = append(cs, C.Eq(x.M.TermFromCells(a[i:i+n]), x.M.TermFromCells(b[i:i+n])))
		i += n
	}
	return C.And(cs...)
}

func isWhole(cs []vm.Cell) bool {
	t, ok := cs[0].V.(*term.Term)
	if !ok || cs[0].Idx != 0 || int(t.W) != 8*len(cs) {
		return false
	}
	for i := range cs {
		if cs[i].V != cs[0].V || int(cs[i].Idx) != i {
			return false
		}
	}
	return true
}

func (f *fc) convert(i *ssa.Convert) vm.Instr {
	x := f.x
	m, C := x.M, x.M.C
	from, to := i.X.Type(), i.Type()
	wf, sf, okf := x.intType(from)
	wt, _, okt := x.intType(to)
	if okf && okt && wf > 1 {
		return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			if p, ok := a[0].(vm.Ptr); ok {
				if p.Obj == 0 {
					return C.Const(wt, uint64(p.Off)), vm.Next
				}
				return p, vm.Next
			}
			t := asTerm(a[0])
			if sf && wt > wf {
				return C.SExt(t, wt), vm.Next
			}
			return C.ZExt(t, wt), vm.Next
		}, nil)
	}
	isStr := func(t types.Type) bool { b := basic(t); return b != nil && b.Info()&types.IsString != 0 }
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && basic(s.Elem()) != nil && basic(s.Elem()).Kind() == types.Uint8
	}
	switch {
	case isStr(from) && isStr(to):
		return f.mk(i, []ssa.Value{i.X}, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) { return a[0], vm.Next }, nil)
	case isStr(from) && isBytes(to):
		return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			st := a[0].(vm.Str)
			var cs []vm.Cell
			if st.Len > 0 {
				cs, _ = m.LoadCells(s, st.P, int(st.Len))
			}
			id := m.AllocCells(s, append([]vm.Cell{}, cs...), "bytes of string")
			return vm.Slice{P: vm.Ptr{Obj: id}, Len: st.Len, Cap: st.Len}, vm.Next
		}, nil)
	case isBytes(from) && isStr(to):
		return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			sl := a[0].(vm.Slice)
			if sl.Len == 0 {
				return vm.Str{}, vm.Next
			}
			cs, ok := m.LoadCells(s, sl.P, int(sl.Len))
			if !ok {
				return nil, vm.Done
			}
			id := m.AllocCells(s, append([]vm.Cell{}, cs...), "string")
			return vm.Str{P: vm.Ptr{Obj: id}, Len: sl.Len}, vm.Next
		}, nil)
	}
	isPtr := func(t types.Type) bool {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
		b := basic(t)
		return b != nil && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr)
	}
	if isPtr(from) && isPtr(to) {
		return f.mk(i, []ssa.Value{i.X}, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			if _, ok := a[0].(*term.Term); ok && !isUintptr(to) {
				return toPtr(a[0]), vm.Next
			}
			return a[0], vm.Next
		}, nil)
	}
	return f.unsupported(i)
}

func isUintptr(t types.Type) bool { b := basic(t); return b != nil && b.Kind() == types.Uintptr }

// idx checks an index against a length; returns a concrete index or a control.
func (f *fc) idxConcrete(r *vm.Run, s *vm.State, t *term.Term, reg int, signed bool, n int64) (int64, vm.Ctl, bool) {
	x := f.x
	C := x.M.C
	if t.IsConst() {
		k := int64(t.A)
		if signed {
			k = sval(t)
		}
		if k < 0 || k >= n {
			x.M.Panic(s, fmt.Sprintf("index out of range [%d] with length %d", k, n))
			return 0, vm.Done, false
		}
		return k, vm.Next, true
	}
	var in *term.Term
	if n == 0 {
		in = C.False()
	} else if uint64(n) > term.Mask(t.W) {
		in = C.True()
		if signed {
			in = C.Not(C.Slt(t, C.Const(t.W, 0)))
		}
	} else {
		in = C.Ult(t, C.Const(t.W, uint64(n)))
	}
	if !x.require(s, in, "index out of range") {
		return 0, vm.Done, false
	}
	if n <= 128 {
		var last *vm.State
		for k := int64(0); k < n; k++ {
			e := C.Eq(t, C.Const(t.W, uint64(k)))
			if e.IsFalse() {
				continue
			}
			c := s.Clone()
			if !x.M.Assume(c, e) {
				continue
			}
			c.Regs[reg] = C.Const(t.W, uint64(k))
			r.Push(c)
			last = c
		}
		_ = last
		return 0, vm.Done, false
	}
	return 0, r.Concretise(s, t, func(u *vm.State, k *term.Term) { u.Regs[reg] = k }, 4096), false
}

func (f *fc) signedIdx(v ssa.Value) bool {
	_, sg, _ := f.x.intType(v.Type())
	return sg
}

func (f *fc) indexAddr(i *ssa.IndexAddr) vm.Instr {
	x := f.x
	var et types.Type
	arr := int64(-1)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		et, arr = a.Elem(), a.Len()
	}
	es := int64(x.size(et))
	ir := f.regOf(i.Index)
	sg := f.signedIdx(i.Index)
	d := f.reg(i)
	return f.mk(i, []ssa.Value{i.X, i.Index}, false, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
		var base vm.Ptr
		n := arr
		switch b := a[0].(type) {
		case vm.Slice:
			base, n = b.P, b.Len
		case vm.Ptr:
			base = b
			if b.IsNil() {
				x.M.Panic(s, "nil pointer dereference")
				return vm.Done
			}
		default:
			vm.Unsupported("index of %s", vm.Describe(a[0]))
		}
		k, c, ok := f.idxConcrete(r, s, asTerm(a[1]), ir, sg, n)
		if !ok {
			return c
		}
		s.Regs[d] = vm.Ptr{Obj: base.Obj, Off: base.Off + k*es}
		return vm.Next
	})
}

func (f *fc) index(i *ssa.Index) vm.Instr {
	x := f.x
	if b := basic(i.X.Type()); b != nil {
		return f.strIndex(i, i.X, i.Index)
	}
	u, ok := i.X.Type().Underlying().(*types.Array)
	if !ok {
		return f.unsupported(i)
	}
	es := int64(x.size(u.Elem()))
	ir := f.regOf(i.Index)
	sg := f.signedIdx(i.Index)
	d := f.reg(i)
	return f.mk(i, []ssa.Value{i.X, i.Index}, false, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
		k, c, ok := f.idxConcrete(r, s, asTerm(a[1]), ir, sg, u.Len())
		if !ok {
			return c
		}
		s.Regs[d] = x.fromCells(u.Elem(), a[0].(*vm.Raw).Cells[k*es:(k+1)*es])
		return vm.Next
	})
}

func (f *fc) strIndex(v ssa.Value, xs, idx ssa.Value) vm.Instr {
	x := f.x
	ir := f.regOf(idx)
	sg := f.signedIdx(idx)
	d := f.reg(v)
	return f.mk(v, []ssa.Value{xs, idx}, false, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
		st := a[0].(vm.Str)
		k, c, ok := f.idxConcrete(r, s, asTerm(a[1]), ir, sg, st.Len)
		if !ok {
			return c
		}
		t, ok := x.M.LoadTerm(s, vm.Ptr{Obj: st.P.Obj, Off: st.P.Off + k}, 1)
		if !ok {
			return vm.Done
		}
		s.Regs[d] = t
		return vm.Next
	})
}

func (f *fc) slice(i *ssa.Slice) vm.Instr {
	x := f.x
	m := x.M
	ops := []ssa.Value{i.X}
	var regs []int
	pos := [3]int{-1, -1, -1}
	for k, o := range []ssa.Value{i.Low, i.High, i.Max} {
		if o != nil {
			pos[k] = len(ops)
			ops = append(ops, o)
		}
	}
	for _, o := range ops {
		regs = append(regs, f.regOf(o))
	}
	var es int64 = 1
	arr := int64(-1)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		es = int64(x.size(u.Elem()))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		es, arr = int64(x.size(a.Elem())), a.Len()
	}
	d := f.reg(i)
	return f.mk(i, ops, false, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
		val := [3]int64{-1, -1, -1}
		for k := 0; k < 3; k++ {
			if pos[k] < 0 {
				continue
			}
			t := asTerm(a[pos[k]])
			if !t.IsConst() {
				reg := regs[pos[k]]
				// out-of-range values panic: bound the enumeration by the capacity
				var limit int64
				switch b := a[0].(type) {
				case vm.Slice:
					limit = b.Cap
				case vm.Str:
					limit = b.Len
				default:
					limit = arr
				}
				if uint64(limit) < term.Mask(t.W) {
					if !x.require(s, m.C.Ule(t, m.C.Const(t.W, uint64(limit))), "slice bounds out of range") {
						return vm.Done
					}
				}
				return r.Concretise(s, t, func(u *vm.State, c *term.Term) { u.Regs[reg] = c }, 600)
			}
			val[k] = sval(t)
			if val[k] < 0 {
				m.Panic(s, "slice bounds out of range")
				return vm.Done
			}
		}
		var base vm.Ptr
		var ln, cp int64
		isStr := false
		switch b := a[0].(type) {
		case vm.Slice:
			base, ln, cp = b.P, b.Len, b.Cap
		case vm.Str:
			base, ln, cp, isStr = b.P, b.Len, b.Len, true
		case vm.Ptr:
			if b.IsNil() {
				m.Panic(s, "nil pointer dereference")
				return vm.Done
			}
			base, ln, cp = b, arr, arr
		default:
			vm.Unsupported("slice of %s", vm.Describe(a[0]))
		}
		lo, hi, mx := int64(0), ln, cp
		if val[0] >= 0 {
			lo = val[0]
		}
		if val[1] >= 0 {
			hi = val[1]
		}
		if val[2] >= 0 {
			mx = val[2]
		}
		if lo > hi || hi > mx || mx > cp {
			m.Panic(s, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cp))
			return vm.Done
		}
		np := base
		if base.Obj != 0 {
			np.Off += lo * es
		}
		if isStr {
			s.Regs[d] = vm.Str{P: np, Len: hi - lo}
		} else {
			s.Regs[d] = vm.Slice{P: np, Len: hi - lo, Cap: mx - lo}
		}
		return vm.Next
	})
}

func (f *fc) typeAssert(i *ssa.TypeAssert) vm.Instr {
	x := f.x
	at := i.AssertedType
	_, toIface := at.Underlying().(*types.Interface)
	cat := x.typ(at)
	return f.mk(i, []ssa.Value{i.X}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
		v := a[0].(vm.Iface)
		ok := false
		if v.Typ != nil {
			if toIface {
				ok = types.Implements(v.Typ.(types.Type), at.Underlying().(*types.Interface))
			} else {
				ok = v.Typ == cat
			}
		}
		var res vm.Value
		if ok {
			if toIface {
				res = v
			} else {
				res = v.Val
			}
		}
		if i.CommaOk {
			if !ok {
				res = x.zero(at)
			}
			return &vm.Tuple{Vs: []vm.Value{res, x.M.C.Bool(ok)}}, vm.Next
		}
		if !ok {
			x.M.Panic(s, "interface conversion failed")
			return nil, vm.Done
		}
		return res, vm.Next
	}, nil)
}

// ConstString reads a string whose bytes are all constant.
func (x *X) ConstString(s *vm.State, st vm.Str) (string, bool) {
	if st.Len == 0 {
		return "", true
	}
	cs, ok := x.M.LoadCells(s, st.P, int(st.Len))
	if !ok {
		return "", false
	}
	b := make([]byte, len(cs))
	for i, c := range cs {
		t := x.M.TermFromCells([]vm.Cell{c})
		if t.W != 8 || !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.A)
	}
	return string(b), true
}
