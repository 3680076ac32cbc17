package gossa

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
	"verif/engine/vm"
)

// Run executes fn from state s.
func (x *X) Run(s *vm.State, fn *ssa.Function, args []vm.Value) (*vm.State, []vm.Value) {
	if fn.Package() != nil || fn.Object() != nil {
		if in := x.intrinsic(fn); in != nil {
			return in(x, s, args)
		}
	}
	if x.Stub != nil {
		if in := x.Stub(fn); in != nil {
			x.M.FuncsRun["[stub] "+fn.String()]++
			return in(x, s, args)
		}
	}
	x.P.build(fn)
	if len(fn.Blocks) == 0 {
		if x.Bodiless != nil {
			if st, rs, ok := x.Bodiless(x, nil, s, fn, args); ok {
				return st, rs
			}
		}
		vm.Unsupported("call of %s, which has no Go body", fn)
	}
	return x.M.Exec(x.Compile(fn), s, args, nil)
}

func (x *X) intrinsic(fn *ssa.Function) Intrinsic {
	name := fn.String()
	if in, ok := x.Intrinsics[name]; ok {
		return in
	}
	pkg := fn.Package()
	if pkg == nil {
		if fn.Origin() != nil {
			pkg = fn.Origin().Package()
		}
		if o := fn.Object(); pkg == nil && o != nil && o.Pkg() != nil {
			return x.stdIntrinsic(o.Pkg().Path(), fn)
		}
	}
	if pkg == nil {
		return nil
	}
	return x.stdIntrinsic(pkg.Pkg.Path(), fn)
}

// featureName finds the constant of the feature package with the given value.
func featureName(fn *ssa.Function, id *term.Term) string {
	o := fn.Object()
	if o == nil || o.Pkg() == nil || !id.IsConst() {
		return ""
	}
	sc := o.Pkg().Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		if nt, ok := k.Type().(*types.Named); !ok || nt.Obj().Name() != "FeatureID" {
			continue
		}
		if v, ok := constant.Int64Val(k.Val()); ok && uint64(v)&term.Mask(id.W) == id.A {
			return n
		}
	}
	return ""
}

func (x *X) ZeroResults(fn *ssa.Function) []vm.Value {
	var out []vm.Value
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, x.zero(rs.At(i).Type()))
	}
	return out
}

func (x *X) stdIntrinsic(path string, fn *ssa.Function) Intrinsic {
	m, C := x.M, x.M.C
	if fn.Name() == "init" && fn.Synthetic != "" && !x.inModulePath(path) {
		return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) { return s, nil }
	}
	switch {
	case strings.HasPrefix(path, "github.com/klauspost/cpuid"):
		if x.CPU == nil {
			return nil
		}
		rs := fn.Signature.Results()
		if rs.Len() == 1 && types.Identical(rs.At(0).Type().Underlying(), types.Typ[types.Bool]) {
			return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
				name := fn.Name()
				var ids []*term.Term
				for _, v := range a {
					switch q := v.(type) {
					case *term.Term:
						ids = append(ids, q)
					case vm.Slice:
						for k := int64(0); k < q.Len; k++ {
							if t, ok := m.LoadTerm(s, vm.Ptr{Obj: q.P.Obj, Off: q.P.Off + k*int64(m.PtrSize)}, m.PtrSize); ok {
								ids = append(ids, t)
							}
						}
					}
				}
				var fs []*term.Term
				for _, id := range ids {
					n := featureName(fn, id)
					if n == "" {
						fs = nil
						break
					}
					fs = append(fs, x.CPU(n))
				}
				if len(fs) > 0 {
					switch name {
					case "Supports", "Has":
						return s, []vm.Value{C.And(fs...)}
					case "AnyOf":
						return s, []vm.Value{C.Or(fs...)}
					}
				}
				for _, id := range ids {
					name += "_" + id.String()
				}
				return s, []vm.Value{x.CPU(sanitize(name))}
			}
		}
	case path == "fmt":
		return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
			rs := x.ZeroResults(fn)
			if fn.Name() == "Errorf" {
				rs[0] = x.opaqueError("fmt.Errorf")
			}
			if strings.HasPrefix(fn.Name(), "Sprint") {
				rs[0] = x.strConst("<formatted>")
			}
			return s, rs
		}
	case path == "errors" && fn.Name() == "New":
		return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
			return s, []vm.Value{x.opaqueError("errors.New")}
		}
	case path == "runtime" || path == "internal/race":
		switch fn.Name() {
		case "KeepAlive", "Gosched", "SetFinalizer", "Acquire", "Release", "ReleaseMerge", "Disable", "Enable", "Read", "Write", "ReadRange", "WriteRange":
			return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) { return s, x.ZeroResults(fn) }
		}
	case path == "sync":
		recv := fn.Signature.Recv()
		if recv != nil {
			rn := recv.Type().String()
			switch {
			case strings.HasSuffix(rn, "Mutex"):
				return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
					rs := x.ZeroResults(fn)
					for i := range rs {
						if t, ok := rs[i].(*term.Term); ok && t.W == 1 {
							rs[i] = C.True()
						}
					}
					return s, rs
				}
			case strings.HasSuffix(rn, "Pool") && fn.Name() == "Put":
				return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
					// two slots in the pool's own memory: last in, first out;
					// further values are dropped, which a pool may do
					on := m.WatchOn
					m.WatchOn = false
					defer func() { m.WatchOn = on }()
					et := types.NewInterfaceType(nil, nil)
					n := x.size(et)
					for k := 0; k < 2; k++ {
						p := a[0].(vm.Ptr)
						p.Off += int64(k * n)
						cs, ok := m.LoadCells(s, p, n)
						if !ok {
							return nil, nil
						}
						if f, ok := x.fromCells(et, cs).(vm.Iface); ok && f.Typ == nil {
							m.StoreCells(s, p, x.toCells(et, a[1]))
							if g, ok := a[1].(vm.Iface); ok {
								if q, ok := g.Val.(vm.Ptr); ok {
									delete(m.WatchAllow, q.Obj)
								}
							}
							break
						}
					}
					return s, nil
				}
			case strings.HasSuffix(rn, "Pool") && fn.Name() == "Get":
				return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
					on := m.WatchOn
					m.WatchOn = false
					defer func() { m.WatchOn = on }()
					et := types.NewInterfaceType(nil, nil)
					n := x.size(et)
					for k := 0; k < 2; k++ {
						p := a[0].(vm.Ptr)
						p.Off += int64(k * n)
						cs, ok := m.LoadCells(s, p, n)
						if !ok {
							return nil, nil
						}
						v := x.fromCells(et, cs)
						if f, ok := v.(vm.Iface); !ok || f.Typ != nil {
							if !ok {
								vm.Unsupported("sync.Pool with a symbolic content")
							}
							m.StoreCells(s, p, x.toCells(et, vm.Iface{}))
							if q, ok := f.Val.(vm.Ptr); ok { // the taker's own, until put back
								m.WatchAllow[q.Obj] = true
							}
							return s, []vm.Value{v}
						}
					}
					pt := recv.Type().(*types.Pointer).Elem()
					st := pt.Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Name() == "New" {
							p := a[0].(vm.Ptr)
							v, ok := m.LoadWord(s, vm.Ptr{Obj: p.Obj, Off: p.Off + x.fieldOff(st, i)})
							if !ok {
								return nil, nil
							}
							if cl, ok := v.(*vm.Closure); ok {
								return x.Run(s, cl.Fn.(*ssa.Function), cl.Bind)
							}
						}
					}
					return s, []vm.Value{vm.Iface{}}
				}
			case strings.HasSuffix(rn, "Once") && fn.Name() == "Do":
				return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
					// the done flag is the first word of the object: model it there
					p := a[0].(vm.Ptr)
					t, ok := m.LoadTerm(s, p, 1)
					if !ok {
						return nil, nil
					}
					if !t.IsConst() {
						vm.Unsupported("sync.Once with a symbolic state")
					}
					if t.A != 0 {
						return s, nil
					}
					on := m.WatchOn
					m.WatchOn = false
					m.StoreCells(s, p, []vm.Cell{{V: C.Const(8, 1)}})
					cl := a[1].(*vm.Closure)
					st, _ := x.Run(s, cl.Fn.(*ssa.Function), cl.Bind)
					m.WatchOn = on
					return st, nil
				}
			}
		}
	case path == "bytes" && (fn.Name() == "Equal"):
		return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
			p, ok1 := a[0].(vm.Slice)
			q, ok2 := a[1].(vm.Slice)
			if !ok1 || !ok2 {
				vm.Unsupported("bytes.Equal on a choice of slices")
			}
			if p.Len != q.Len {
				return s, []vm.Value{C.False()}
			}
			if p.Len == 0 {
				return s, []vm.Value{C.True()}
			}
			ca, _ := m.LoadCells(s, p.P, int(p.Len))
			cb, _ := m.LoadCells(s, q.P, int(q.Len))
			return s, []vm.Value{x.eqCells(ca, cb)}
		}
	}
	if strings.Contains(path, "sync/atomic") {
		return x.atomicIntrinsic(fn)
	}
	return nil
}

// atomicIntrinsic: plain accesses that the write watch does not count.
func (x *X) atomicIntrinsic(fn *ssa.Function) Intrinsic {
	m, C := x.M, x.M.C
	name := fn.Name()
	kind := ""
	for _, k := range []string{"Load", "Store", "Add", "CompareAndSwap", "Swap", "And", "Or"} {
		if strings.HasPrefix(name, k) {
			kind = k
			break
		}
	}
	if kind == "" || kind == "And" || kind == "Or" {
		return nil
	}
	if fn.Signature.Recv() != nil {
		// methods of atomic.Int32 etc. have bodies calling the functions below
		return nil
	}
	return func(x *X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		p, ok := a[0].(vm.Ptr)
		if !ok {
			vm.Unsupported("atomic access through %s", vm.Describe(a[0]))
		}
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		n := x.size(et)
		cs, ok := m.LoadCells(s, p, n)
		if !ok {
			return nil, nil
		}
		old := x.fromCells(et, cs)
		on := m.WatchOn
		m.WatchOn = false
		defer func() { m.WatchOn = on }()
		st := func(v vm.Value) { m.StoreCells(s, p, x.toCells(et, v)) }
		switch kind {
		case "Load":
			return s, []vm.Value{old}
		case "Store":
			st(a[1])
			return s, nil
		case "Swap":
			st(a[1])
			return s, []vm.Value{old}
		case "Add":
			v := C.Add(asTerm(old), asTerm(a[1]))
			st(v)
			return s, []vm.Value{v}
		default: // CompareAndSwap
			e := x.equal(s, et, old, a[1])
			st(m.MergeVal(e, a[2], old))
			return s, []vm.Value{e}
		}
	}
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (x *X) inModulePath(p string) bool {
	return p == x.P.Module || strings.HasPrefix(p, x.P.Module+"/")
}

// Init runs the package initialisers of the module packages reachable from pkg.
func (x *X) Init(s *vm.State, pkg string) *vm.State {
	sp := x.P.Pkgs[pkg]
	fn := sp.Func("init")
	st, _ := x.Run(s, fn, nil)
	return st
}

func (f *fc) call(in ssa.Instruction, c *ssa.CallCommon, def ssa.Value) vm.Instr {
	x := f.x
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(in, b, c, def)
	}
	nres := c.Signature().Results().Len()
	var d ssa.Value
	if nres > 0 {
		d = def
	}
	setRes := func(s *vm.State, rs []vm.Value) {
		if d == nil {
			return
		}
		if nres == 1 {
			s.Regs[f.regs[d]] = rs[0]
		} else {
			s.Regs[f.regs[d]] = &vm.Tuple{Vs: rs}
		}
	}
	finish := func(s, st *vm.State, rs []vm.Value) vm.Ctl {
		if st == nil {
			return vm.Done
		}
		if st != s {
			*s = *st
		}
		setRes(s, rs)
		return vm.Next
	}
	if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			ops := append([]ssa.Value{}, c.Args...)
			ops = append(ops, mc)
			return f.mk(d, ops, true, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
				cl := a[len(a)-1].(*vm.Closure)
				args := append(append([]vm.Value{}, a[:len(a)-1]...), cl.Bind...)
				st, rs := x.Run(s, fn, args)
				return finish(s, st, rs)
			})
		}
		return f.mk(d, c.Args, true, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
			st, rs := x.Run(s, fn, append([]vm.Value{}, a...))
			return finish(s, st, rs)
		})
	}
	ops := append([]ssa.Value{c.Value}, c.Args...)
	vr := f.regOf(c.Value)
	return f.mk(d, ops, true, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
		if vi, ok := a[0].(*vm.VIte); ok {
			return r.Split(s, vi.C, func(t *vm.State) { t.Regs[vr] = vi.A }, func(t *vm.State) { t.Regs[vr] = vi.B })
		}
		fn, args, ok := x.resolve(s, c, a)
		if !ok {
			return vm.Done
		}
		st, rs := x.Run(s, fn, args)
		return finish(s, st, rs)
	})
}

// resolve finds the target of a dynamic call.
func (x *X) resolve(s *vm.State, c *ssa.CallCommon, a []vm.Value) (*ssa.Function, []vm.Value, bool) {
	if c.IsInvoke() {
		v, ok := a[0].(vm.Iface)
		if !ok {
			vm.Unsupported("method call on %s", vm.Describe(a[0]))
		}
		if v.Typ == nil {
			x.M.Panic(s, "nil interface method call")
			return nil, nil, false
		}
		x.P.mu.Lock()
		fn := x.P.Prog.LookupMethod(v.Typ.(types.Type), c.Method.Pkg(), c.Method.Name())
		x.P.mu.Unlock()
		if fn == nil {
			vm.Unsupported("method %s of %s", c.Method.Name(), v.Typ)
		}
		return fn, append([]vm.Value{v.Val}, a[1:]...), true
	}
	cl, ok := a[0].(*vm.Closure)
	if !ok {
		if p, isp := a[0].(vm.Ptr); isp && p.IsNil() {
			x.M.Panic(s, "call of a nil function")
			return nil, nil, false
		}
		vm.Unsupported("call through %s", vm.Describe(a[0]))
	}
	return cl.Fn.(*ssa.Function), append(append([]vm.Value{}, a[1:]...), cl.Bind...), true
}

func (f *fc) deferred(i *ssa.Defer) vm.Instr {
	x := f.x
	c := i.Common()
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return f.unsupported(i)
	}
	run := func(r *vm.Run, s *vm.State, fn *ssa.Function, args []vm.Value) {
		st, _ := x.Run(s, fn, args)
		if st == nil {
			s.Defers = append(s.Defers, nil) // signals that the path ended
			return
		}
		if st != s {
			*s = *st
		}
	}
	if fn := c.StaticCallee(); fn != nil {
		ops := append([]ssa.Value{}, c.Args...)
		mc, isC := c.Value.(*ssa.MakeClosure)
		if isC {
			ops = append(ops, mc)
		}
		return f.mk(nil, ops, true, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
			args := append([]vm.Value{}, a...)
			if isC {
				cl := a[len(a)-1].(*vm.Closure)
				args = append(append([]vm.Value{}, a[:len(a)-1]...), cl.Bind...)
			}
			s.Defers = append(s.Defers[:len(s.Defers):len(s.Defers)], func(r *vm.Run, s *vm.State) { run(r, s, fn, args) })
			return vm.Next
		})
	}
	ops := append([]ssa.Value{c.Value}, c.Args...)
	return f.mk(nil, ops, false, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
		fn, args, ok := x.resolve(s, c, append([]vm.Value{}, a...))
		if !ok {
			return vm.Done
		}
		s.Defers = append(s.Defers[:len(s.Defers):len(s.Defers)], func(r *vm.Run, s *vm.State) { run(r, s, fn, args) })
		return vm.Next
	})
}

func (f *fc) builtin(in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, def ssa.Value) vm.Instr {
	x := f.x
	m, C := x.M, x.M.C
	pw := uint8(8 * x.P.PtrSize)
	switch b.Name() {
	case "len", "cap":
		isLen := b.Name() == "len"
		if u, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if arr, ok := u.Elem().Underlying().(*types.Array); ok {
				k := C.Const(pw, uint64(arr.Len()))
				return f.mk(def, nil, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) { return k, vm.Next }, nil)
			}
		}
		if arr, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			k := C.Const(pw, uint64(arr.Len()))
			return f.mk(def, nil, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) { return k, vm.Next }, nil)
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return f.mk(def, c.Args, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) { return x.mapLen(s, a[0], pw), vm.Next }, nil)
		}
		var lenOf func(v vm.Value) *term.Term
		lenOf = func(v vm.Value) *term.Term {
			switch q := v.(type) {
			case vm.Slice:
				if isLen {
					return C.Const(pw, uint64(q.Len))
				}
				return C.Const(pw, uint64(q.Cap))
			case vm.Str:
				return C.Const(pw, uint64(q.Len))
			case *vm.VIte:
				return C.Ite(q.C, lenOf(q.A), lenOf(q.B))
			}
			vm.Unsupported("len of %s", vm.Describe(v))
			return nil
		}
		return f.mk(def, c.Args, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) { return lenOf(a[0]), vm.Next }, nil)
	case "copy":
		es := 1
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			es = x.size(sl.Elem())
		}
		return f.mk(def, c.Args, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			d := a[0].(vm.Slice)
			sp, sn := strOrSlice(a[1])
			n := min(d.Len, sn)
			if n > 0 {
				cs, ok := m.LoadCells(s, sp, int(n)*es)
				if !ok {
					return nil, vm.Done
				}
				tmp := append([]vm.Cell(nil), cs...)
				if !m.StoreCells(s, d.P, tmp) {
					return nil, vm.Done
				}
			}
			return C.Const(pw, uint64(n)), vm.Next
		}, nil)
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		es := x.size(et)
		return f.mk(def, c.Args, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			d := a[0].(vm.Slice)
			sp, sn := strOrSlice(a[1])
			if sn == 0 {
				return d, vm.Next
			}
			cs, ok := m.LoadCells(s, sp, int(sn)*es)
			if !ok {
				return nil, vm.Done
			}
			tmp := append([]vm.Cell(nil), cs...)
			if d.Len+sn <= d.Cap {
				if !m.StoreCells(s, vm.Ptr{Obj: d.P.Obj, Off: d.P.Off + d.Len*int64(es)}, tmp) {
					return nil, vm.Done
				}
				return vm.Slice{P: d.P, Len: d.Len + sn, Cap: d.Cap}, vm.Next
			}
			var head []vm.Cell
			if d.Len > 0 {
				head, ok = m.LoadCells(s, d.P, int(d.Len)*es)
				if !ok {
					return nil, vm.Done
				}
			}
			nc := append(append([]vm.Cell(nil), head...), tmp...)
			id := m.AllocCells(s, nc, f.fn.Name()+".append")
			return vm.Slice{P: vm.Ptr{Obj: id}, Len: d.Len + sn, Cap: d.Len + sn}, vm.Next
		}, nil)
	case "clear":
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			es := x.size(sl.Elem())
			return f.mk(nil, c.Args, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
				d := a[0].(vm.Slice)
				if d.Len > 0 && !m.StoreCells(s, d.P, m.ZeroCells(int(d.Len)*es)) {
					return nil, vm.Done
				}
				return nil, vm.Next
			}, nil)
		}
	case "min", "max":
		w, sg, ok := x.intType(c.Args[0].Type())
		_ = w
		if ok {
			isMin := b.Name() == "min"
			return f.mk(def, c.Args, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
				r := asTerm(a[0])
				for _, v := range a[1:] {
					t := asTerm(v)
					var lt *term.Term
					if sg {
						lt = C.Slt(t, r)
					} else {
						lt = C.Ult(t, r)
					}
					if isMin {
						r = C.Ite(lt, t, r)
					} else {
						r = C.Ite(lt, r, t)
					}
				}
				return r, vm.Next
			}, nil)
		}
	case "print", "println":
		return f.mk(nil, nil, true, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) { return nil, vm.Next }, nil)
	case "ssa:wrapnilchk":
		return f.mk(def, c.Args[:1], false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			if p, ok := a[0].(vm.Ptr); ok && p.IsNil() {
				m.Panic(s, "nil pointer dereference")
				return nil, vm.Done
			}
			return a[0], vm.Next
		}, nil)
	case "String", "StringData", "SliceData", "Slice", "Add":
		return f.unsafeBuiltin(in, b, c, def)
	}
	return f.unsupported(in)
}

func strOrSlice(v vm.Value) (vm.Ptr, int64) {
	switch q := v.(type) {
	case vm.Slice:
		return q.P, q.Len
	case vm.Str:
		return q.P, q.Len
	}
	vm.Unsupported("copy from %s", vm.Describe(v))
	return vm.Ptr{}, 0
}

func (f *fc) unsafeBuiltin(in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, def ssa.Value) vm.Instr {
	switch b.Name() {
	case "SliceData", "StringData":
		return f.mk(def, c.Args, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			p, _ := strOrSlice(a[0])
			return p, vm.Next
		}, nil)
	case "Slice", "String":
		isStr := b.Name() == "String"
		return f.mk(def, c.Args, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			p, ok := a[0].(vm.Ptr)
			n := asTerm(a[1])
			if !ok || !n.IsConst() {
				vm.Unsupported("unsafe.%s", b.Name())
			}
			if isStr {
				return vm.Str{P: p, Len: sval(n)}, vm.Next
			}
			return vm.Slice{P: p, Len: sval(n), Cap: sval(n)}, vm.Next
		}, nil)
	case "Add":
		return f.mk(def, c.Args, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
			p, ok := a[0].(vm.Ptr)
			n := asTerm(a[1])
			if !ok || !n.IsConst() {
				vm.Unsupported("unsafe.Add")
			}
			return vm.Ptr{Obj: p.Obj, Off: p.Off + sval(n)}, vm.Next
		}, nil)
	}
	return f.unsupported(in)
}
