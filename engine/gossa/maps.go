package gossa

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
	"verif/engine/vm"
)

// A map is a pointer to a header that holds a slice of entries, key then
// value, in the order of insertion.
func (x *X) mapEntries(s *vm.State, p vm.Ptr) (vm.Slice, bool) {
	cs, ok := x.M.LoadCells(s, p, 3*x.P.PtrSize)
	if !ok {
		return vm.Slice{}, false
	}
	return x.M.Frag(cs, vm.Slice{}).(vm.Slice), true
}

func mapPtr(v vm.Value) vm.Ptr {
	p, ok := v.(vm.Ptr)
	if !ok {
		vm.Unsupported("map %s", vm.Describe(v))
	}
	return p
}

func (f *fc) makeMap(i *ssa.MakeMap) vm.Instr {
	x, m := f.x, f.x.M
	return f.mk(i, nil, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
		return vm.Ptr{Obj: m.Alloc(s, 3*x.P.PtrSize, f.fn.Name()+".map")}, vm.Next
	}, nil)
}

func (f *fc) mapUpdate(i *ssa.MapUpdate) vm.Instr {
	x, m := f.x, f.x.M
	mt := i.Map.Type().Underlying().(*types.Map)
	ks, vs := x.size(mt.Key()), x.size(mt.Elem())
	return f.mk(nil, []ssa.Value{i.Map, i.Key, i.Value}, false, nil, func(r *vm.Run, s *vm.State, a []vm.Value) vm.Ctl {
		p := mapPtr(a[0])
		if p.Obj == 0 {
			m.Panic(s, "assignment to entry in nil map")
			return vm.Done
		}
		sl, ok := x.mapEntries(s, p)
		if !ok {
			return vm.Done
		}
		n := int(sl.Len)
		var all []vm.Cell
		if n > 0 {
			cs, ok := m.LoadCells(s, sl.P, n*(ks+vs))
			if !ok {
				return vm.Done
			}
			all = append(all, cs...)
		}
		val := x.toCells(mt.Elem(), a[2])
		for k := 0; k < n; k++ {
			o := k * (ks + vs)
			eq := x.equal(s, mt.Key(), x.fromCells(mt.Key(), all[o:o+ks]), a[1])
			if !eq.IsConst() {
				vm.Unsupported("map update with a symbolic key")
			}
			if eq.A == 1 {
				if !m.StoreCells(s, vm.Ptr{Obj: sl.P.Obj, Off: sl.P.Off + int64(o+ks)}, val) {
					return vm.Done
				}
				return vm.Next
			}
		}
		all = append(append(all, x.toCells(mt.Key(), a[1])...), val...)
		id := m.AllocCells(s, all, f.fn.Name()+".map")
		if !m.StoreCells(s, p, m.CellsOf(vm.Slice{P: vm.Ptr{Obj: id}, Len: int64(n + 1), Cap: int64(n + 1)}, 3*x.P.PtrSize)) {
			return vm.Done
		}
		return vm.Next
	})
}

func (f *fc) mapLookup(i *ssa.Lookup) vm.Instr {
	x, m := f.x, f.x.M
	mt := i.X.Type().Underlying().(*types.Map)
	ks, vs := x.size(mt.Key()), x.size(mt.Elem())
	return f.mk(i, []ssa.Value{i.X, i.Index}, false, func(s *vm.State, a []vm.Value) (vm.Value, vm.Ctl) {
		val, found := x.zero(mt.Elem()), m.C.False()
		if p := mapPtr(a[0]); p.Obj != 0 {
			sl, ok := x.mapEntries(s, p)
			if !ok {
				return nil, vm.Done
			}
			var cs []vm.Cell
			if sl.Len > 0 {
				if cs, ok = m.LoadCells(s, sl.P, int(sl.Len)*(ks+vs)); !ok {
					return nil, vm.Done
				}
			}
			for k := 0; k < int(sl.Len); k++ {
				o := k * (ks + vs)
				eq := x.equal(s, mt.Key(), x.fromCells(mt.Key(), cs[o:o+ks]), a[1])
				v := x.fromCells(mt.Elem(), cs[o+ks:o+ks+vs])
				switch {
				case eq.IsConst() && eq.A == 0:
				case eq.IsConst():
					val = v
				default:
					val = m.MergeVal(eq, v, val)
				}
				found = m.C.Or(found, eq)
			}
		}
		if i.CommaOk {
			return &vm.Tuple{Vs: []vm.Value{val, found}}, vm.Next
		}
		return val, vm.Next
	}, nil)
}

func (x *X) mapLen(s *vm.State, v vm.Value, w uint8) *term.Term {
	p := mapPtr(v)
	if p.Obj == 0 {
		return x.M.C.Const(w, 0)
	}
	sl, ok := x.mapEntries(s, p)
	if !ok {
		vm.Unsupported("len of map")
	}
	return x.M.C.Const(w, uint64(sl.Len))
}
