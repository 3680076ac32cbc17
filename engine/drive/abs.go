package drive

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/gossa"
	"verif/engine/term"
	"verif/engine/vm"
)

// installAbs replaces the detection by an arbitrary function of its arguments
// (the memory they point to included): what surrounds it can then be followed
// over many more blocks. That the detection is such a function, and which, is
// decided by other jobs.
func (j *runJob) installAbs() {
	if j.job.Abs == 3 {
		j.absBlock()
		return
	}
	m, C := j.x.M, j.x.M.C
	m.LoopCap, C.SumCap = 1<<20, 24
	if j.job.Abs == 4 {
		j.absFeed()
		return
	}
	if j.lx != nil {
		if f := j.lx.Lookup("ubc_check"); j.job.Abs != 2 || f == nil || len(f.Params) != 2 || f.Ret.K != "void" {
			vm.Unsupported("the C filter is not where it was")
		}
		j.lx.Override = map[string]func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value){
			"ubc_check": func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
				p, ok := a[1].(vm.Ptr)
				if !ok || !m.StoreVal(s, p, C.Const(32, 0), 4) {
					return nil, nil
				}
				return s, nil
			},
		}
		return
	}
	_, name, _, _, err := j.e.detection(nil)
	if err != nil {
		vm.Unsupported("%v", err)
	}
	fn := j.prog.Func(j.prog.Module, name)
	name = j.prog.Module + "." + name
	if fn == nil || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
		vm.Unsupported("the detection entry point is not where it was")
	}
	j.x.Intrinsics[name] = func(x *gossa.X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		if j.job.Abs == 2 {
			return s, []vm.Value{C.False()}
		}
		var in []*term.Term
		words := func(p vm.Ptr, n int) bool {
			for ; n > 0; n -= 4 {
				t, ok := m.LoadTerm(s, p, min(n, 4))
				if !ok {
					return false
				}
				in = append(in, t)
				p.Off += 4
			}
			return true
		}
		for i, v := range a {
			switch q := v.(type) {
			case *term.Term:
				in = append(in, q)
			case vm.Ptr:
				pt, ok := paramType(fn, i).Underlying().(*types.Pointer)
				if !ok {
					vm.Unsupported("detection argument %d", i)
				}
				if !words(q, int(j.prog.Sizes.Sizeof(pt.Elem()))) {
					return nil, nil
				}
			case vm.Slice:
				st, ok := paramType(fn, i).Underlying().(*types.Slice)
				if !ok {
					vm.Unsupported("detection argument %d", i)
				}
				if !words(q.P, int(j.prog.Sizes.Sizeof(st.Elem())*q.Len)) {
					return nil, nil
				}
			default:
				vm.Unsupported("detection argument %d: %T", i, v)
			}
		}
		return s, []vm.Value{C.UF(fmt.Sprintf("detect%d", len(in)), 1, in...)}
	}
}

func paramType(fn *ssa.Function, i int) types.Type { return fn.Params[i].Type() }

// run is a stretch of whole blocks of a big input.
type run struct {
	in         string
	start, num int64
	h          [5]*term.Term // chaining value before
	col, after *term.Term    // verdict before and after
}

// absBlock makes the effect of one block on chaining value and verdict an
// arbitrary function of the chaining value and the block's bytes. Consecutive
// blocks of a big input form one stretch, however they arrive.
func (j *runJob) absBlock() {
	m, C := j.x.M, j.x.M.C
	fn := j.prog.Func(j.prog.Module, "block")
	bad := func() { vm.Unsupported("the block function is not where it was") }
	if fn == nil || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 0 || fn.Signature.Recv() != nil {
		bad()
	}
	pt, ok := paramType(fn, 0).Underlying().(*types.Pointer)
	if !ok || !types.Identical(paramType(fn, 1).Underlying(), types.NewSlice(types.Typ[types.Uint8])) {
		bad()
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		bad()
	}
	hOff, colOff := int64(-1), int64(-1)
	var fs []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, st.Field(i))
	}
	offs := j.prog.Sizes.Offsetsof(fs)
	for i, f := range fs {
		if types.Identical(f.Type().Underlying(), types.NewArray(types.Typ[types.Uint32], 5)) {
			if hOff >= 0 {
				bad()
			}
			hOff = offs[i]
		}
		if types.Identical(f.Type().Underlying(), types.Typ[types.Bool]) {
			if colOff >= 0 {
				bad()
			}
			colOff = offs[i]
		}
	}
	if hOff < 0 || colOff < 0 {
		bad()
	}
	runs := map[*term.Term]run{} // by the first word after
	j.x.Intrinsics[j.prog.Module+".block"] = func(x *gossa.X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		d, p := a[0].(vm.Ptr), a[1].(vm.Slice)
		at := func(o int64) vm.Ptr { return vm.Ptr{Obj: d.Obj, Off: d.Off + o} }
		var h [5]*term.Term
		for i := range h {
			t, ok := m.LoadTerm(s, at(hOff+int64(4*i)), 4)
			if !ok {
				return nil, nil
			}
			h[i] = t
		}
		cb, ok := m.LoadTerm(s, at(colOff), 1)
		if !ok {
			return nil, nil
		}
		col := cb
		if col.W != 1 {
			col = C.Not(C.Eq(col, C.Const(col.W, 0)))
		}
		stretch := func(in string, start, num int64) {
			r := run{in: in, start: start, num: num, h: h, col: col}
			if q, ok := runs[h[0]]; ok && q.in == in && q.start+64*q.num == start && q.after == col {
				r.start, r.num, r.h, r.col = q.start, q.num+num, q.h, q.col
			}
			for i := range h {
				h[i] = C.UF(fmt.Sprintf("run_%s_%d_%d_%d", in, r.start, r.num, i), 32, r.h[:]...)
			}
			col = C.Or(r.col, C.UF(fmt.Sprintf("run_%s_%d_%d_col", in, r.start, r.num), 1, r.h[:]...))
			r.after = col
			runs[h[0]] = r
		}
		if p.Len >= 64 {
			if o := m.Obj(s, p.P.Obj); o.Lazy != nil {
				stretch(strings.TrimPrefix(o.Name, "input "), p.P.Off, p.Len/64)
				p.Len = 0
			}
		}
		for p.Len >= 64 {
			var w, all []*term.Term
			for i := 0; i < 16; i++ {
				cs, ok := m.LoadCells(s, vm.Ptr{Obj: p.P.Obj, Off: p.P.Off + int64(4*i)}, 4)
				if !ok {
					return nil, nil
				}
				var bs []*term.Term
				for _, c := range cs {
					bs = append(bs, m.TermFromCells([]vm.Cell{c}))
				}
				all = append(all, bs...)
				w = append(w, C.Concat(bs...))
			}
			if in, off, ok := bigBytes(all); ok {
				stretch(in, off, 1)
			} else {
				in := append(append([]*term.Term{}, h[:]...), w...)
				for i := range h {
					h[i] = C.UF(fmt.Sprintf("block_%d", i), 32, in...)
				}
				col = C.Or(col, C.UF("block_col", 1, in...))
			}
			p.P.Off += 64
			p.Len -= 64
		}
		for i := range h {
			if !m.StoreVal(s, at(hOff+int64(4*i)), h[i], 4) {
				return nil, nil
			}
		}
		if cb.W != 1 {
			col = C.ZExt(col, cb.W)
		}
		if !m.StoreVal(s, at(colOff), col, 1) {
			return nil, nil
		}
		return s, nil
	}
}

// bigBytes recognises a block that is a copy of a piece of a big input.
func bigBytes(bs []*term.Term) (string, int64, bool) {
	in, start := "", int64(0)
	for i, b := range bs {
		if b.Op != term.OExtract || b.Args[0].Op != term.OVar {
			return "", 0, false
		}
		name, idx, ok := strings.Cut(b.Args[0].Name, "@")
		n, err := strconv.ParseInt(idx, 10, 64)
		if !ok || err != nil {
			return "", 0, false
		}
		off := 4*n + 3 - int64(b.B/8)
		if i == 0 {
			in, start = name, off
		}
		if name != in || off != start+int64(i) {
			return "", 0, false
		}
	}
	return in, start, true
}

// absFeed follows what the Go code hands to the C library's update function
// instead of running it: the pieces have to be the given data, all of it, in
// order.
func (j *runJob) absFeed() {
	C := j.x.M.C
	f := j.lx.Lookup("SHA1DCUpdate")
	if f == nil || len(f.Params) != 3 || f.Ret.K != "void" {
		vm.Unsupported("the C update function is not where it was")
	}
	var ctx, at vm.Ptr
	fed, ok := int64(-1), true
	j.lx.Override = map[string]func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value){
		"go:SHA1DCUpdate": func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
			c, ok1 := a[0].(vm.Ptr)
			b, ok2 := a[1].(vm.Ptr)
			n, ok3 := a[2].(*term.Term)
			if !ok1 || !ok2 || !ok3 || n.Op != term.OConst {
				vm.Unsupported("arguments of the C update function")
			}
			if fed < 0 {
				ctx, at, fed = c, b, 0
			}
			ok = ok && c == ctx && b.Obj == at.Obj && b.Off == at.Off+fed
			fed += int64(n.A)
			return s, []vm.Value{}
		},
	}
	j.x.Intrinsics[j.prog.Module+"/zzverif.cgoFed"] = func(x *gossa.X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
		d := a[1].(vm.Slice)
		return s, []vm.Value{C.Bool(ok && d.P == at && d.Len == fed)}
	}
}
