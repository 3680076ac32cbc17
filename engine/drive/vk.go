package drive

import (
	"fmt"
	"strings"

	"verif/engine/gossa"
	"verif/engine/term"
	"verif/engine/vm"
)

const harnessPkg = "/zzverif"

func str(m *vm.M, s *vm.State, v vm.Value) string {
	q, ok := v.(vm.Str)
	if !ok {
		vm.Unsupported("harness: non-constant string")
	}
	if q.Len == 0 {
		return ""
	}
	cs, _ := m.LoadCells(s, q.P, int(q.Len))
	var sb strings.Builder
	for _, c := range cs {
		t, ok := c.V.(*term.Term)
		if !ok {
			vm.Unsupported("harness: string")
		}
		b := m.TermFromCells([]vm.Cell{c})
		_ = t
		if !b.IsConst() {
			vm.Unsupported("harness: symbolic string")
		}
		sb.WriteByte(byte(b.A))
	}
	return sb.String()
}

// installVK registers the harness API.
func (j *runJob) installVK() {
	x, m := j.x, j.x.M
	C := m.C
	mod := j.prog.Module + harnessPkg + "."
	in := func(name string, f func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value)) {
		x.Intrinsics[mod+name] = func(x *gossa.X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) { return f(s, a) }
	}
	sym := func(name string, w uint8) {
		in(name, func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
			return s, []vm.Value{C.Var(str(m, s, a[0]), w)}
		})
	}
	sym("U8", 8)
	sym("U32", 32)
	sym("U64", 64)
	sym("Bool", 1)
	bytesIn := func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		name := str(m, s, a[0])
		n := a[1].(*term.Term)
		if !n.IsConst() {
			vm.Unsupported("harness: symbolic length")
		}
		cs := make([]vm.Cell, n.A)
		for i := range cs {
			// big-endian words, so that word loads stay whole
			w := C.Var(fmt.Sprintf("%s.%d", name, i/4), 32)
			k := uint8(8 * (3 - i%4))
			cs[i] = vm.Cell{V: C.Extract(w, k+7, k)}
		}
		if len(cs) == 0 {
			id := m.AllocCells(s, nil, "input "+name)
			return s, []vm.Value{vm.Slice{P: vm.Ptr{Obj: id}}}
		}
		id := m.AllocCells(s, cs, "input "+name)
		return s, []vm.Value{vm.Slice{P: vm.Ptr{Obj: id}, Len: int64(n.A), Cap: int64(n.A)}}
	}
	in("Bytes", bytesIn)
	in("Big", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		name, n := str(m, s, a[0]), int64(a[1].(*term.Term).A)
		id := m.AllocCells(s, nil, "input "+name)
		o := m.Obj(s, id)
		o.Size = n
		o.Lazy = func(off int64) vm.Cell {
			w := C.Var(fmt.Sprintf("%s@%d", name, off/4), 32)
			k := uint8(8 * (3 - off%4))
			return vm.Cell{V: C.Extract(w, k+7, k)}
		}
		return s, []vm.Value{vm.Slice{P: vm.Ptr{Obj: id}, Len: n, Cap: n}}
	})
	in("Guard", bytesIn)
	in("P", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		name := str(m, s, a[0])
		v, ok := j.job.Params[name]
		if !ok {
			v = 0
		}
		return s, []vm.Value{C.Const(uint8(8*m.PtrSize), uint64(int64(v)))}
	})
	in("Assume", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		m.Lossy++
		if !m.Assume(s, a[0].(*term.Term)) {
			return nil, nil
		}
		return s, nil
	})
	in("Assert", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		m.Assert(s, str(m, s, a[0]), a[1].(*term.Term))
		return s, nil
	})
	in("Cover", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		m.Cover(s, str(m, s, a[0]), a[1].(*term.Term))
		return s, nil
	})
	in("Observe", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		sl := a[1].(vm.Slice)
		var ts []*term.Term
		if sl.Len > 0 {
			cs, _ := m.LoadCells(s, sl.P, int(sl.Len))
			for i := range cs {
				ts = append(ts, m.TermFromCells(cs[i:i+1]))
			}
		}
		j.observed = append(j.observed, observed{str(m, s, a[0]), s.PC, ts})
		return s, nil
	})
	in("Symbolic", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) { return s, []vm.Value{C.True()} })
	watch := func(name string, shared bool) {
		in(name, func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
			m.WatchOn, m.WatchID, m.WatchBelow, m.WatchOnlyShared = true, str(m, s, a[0]), m.NextObj, shared
			m.WatchOnly = 0
			m.WatchAllow = map[int]bool{}
			return s, nil
		})
	}
	watch("NoWrites", false)
	watch("NoSharedWrites", true)
	in("AllowWrite", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		if sl, ok := a[0].(vm.Slice); ok && sl.P.Obj != 0 {
			m.WatchAllow[sl.P.Obj] = true
		}
		return s, nil
	})
	in("NoWritesTo", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		m.WatchOn, m.WatchID, m.WatchBelow, m.WatchOnlyShared = true, str(m, s, a[0]), 0, false
		m.WatchOnly = 0
		if sl, ok := a[1].(vm.Slice); ok {
			m.WatchOnly = sl.P.Obj
		}
		return s, nil
	})
	in("reg", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) { return s, []vm.Value{C.True()} })
	in("EndWrites", func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		m.WatchOn = false
		return s, nil
	})
}
