package drive

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/engine/asm"
	"verif/engine/gossa"
	"verif/engine/term"
	"verif/engine/vm"
)

type imgEntry struct {
	once sync.Once
	im   *asm.Image
	err  error
}

// image loads the linked harness program of a configuration.
func (e *Env) image(c Cfg) (*asm.Image, error) {
	e.mu.Lock()
	if e.images == nil {
		e.images = map[Cfg]*imgEntry{}
	}
	ie := e.images[c]
	if ie == nil {
		ie = &imgEntry{}
		e.images[c] = ie
	}
	e.mu.Unlock()
	ie.once.Do(func() {
		bin, err := e.Native(c, false)
		if err != nil {
			ie.err = err
			return
		}
		ie.im, ie.err = asm.Load(bin, c.Arch, tool("llvm-objdump-18", "llvm-objdump", "/usr/lib/llvm-18/bin/llvm-objdump"))
	})
	return ie.im, ie.err
}

const trampPrefix = "zzTramp"

// installAsm lets functions without a Go body run from their machine code.
func (j *runJob) installAsm() {
	if j.job.Cfg.Arch != "amd64" && j.job.Cfg.Arch != "arm64" {
		return
	}
	var ax *asm.X
	C := j.x.M.C
	calls := 0
	j.x.Bodiless = func(x *gossa.X, r *vm.Run, s *vm.State, fn *ssa.Function, args []vm.Value) (*vm.State, []vm.Value, bool) {
		if fn.Package() == nil || !strings.HasPrefix(fn.Package().Pkg.Path(), j.prog.Module) || fn.Signature.Results().Len() != 0 {
			return nil, nil, false
		}
		if ax == nil {
			shared, err := j.e.image(j.job.Cfg)
			if err != nil {
				vm.Unsupported("machine code: %v", err)
			}
			ax = asm.New(x.M, shared)
			ax.CPU = x.CPU
		}
		name := fn.Name()
		calls++
		n := calls
		init := func(reg string, lane int, w uint8) *term.Term {
			return C.Var(fmt.Sprintf("asm%d_%s_%d", n, reg, lane), w)
		}
		delta := int64(8)
		sig := fn.Signature
		params := make([]*types.Var, sig.Params().Len())
		for i := range params {
			params[i] = sig.Params().At(i)
		}
		if strings.HasPrefix(name, trampPrefix) {
			// the harness's trampoline: registers from its first argument
			regs, ok := args[0].(vm.Slice)
			if !ok {
				vm.Unsupported("trampoline arguments")
			}
			if strings.HasSuffix(name, "1") {
				delta = 0
			}
			target, err := j.e.asmTarget(j.job.Cfg.Arch)
			if err != nil {
				vm.Unsupported("%v", err)
			}
			name = target
			init = func(reg string, lane int, w uint8) *term.Term {
				off, ok := regSlot(j.job.Cfg.Arch, reg, lane)
				if !ok {
					return C.Var(fmt.Sprintf("asm%d_%s_%d", n, reg, lane), w)
				}
				t, ok := x.M.LoadTerm(s, vm.Ptr{Obj: regs.P.Obj, Off: regs.P.Off + off}, int(w/8))
				if !ok {
					vm.Unsupported("trampoline registers")
				}
				return t
			}
			args, params = args[1:], params[1:]
		}
		sym := fn.Package().Pkg.Path() + "." + name + ".abi0"
		if !ax.Im.Has(sym) {
			vm.Unsupported("no machine code for %s", sym)
		}
		var as []asm.Arg
		for i, a := range args {
			arg := asm.Arg{V: a, Name: params[i].Name() + " of " + name}
			switch t := params[i].Type().Underlying().(type) {
			case *types.Slice:
				arg.Size = j.prog.Sizes.Sizeof(t.Elem())
			case *types.Pointer:
				arg.Size = j.prog.Sizes.Sizeof(t.Elem())
			case *types.Basic:
				if j.prog.Sizes.Sizeof(t) != 8 {
					vm.Unsupported("argument type %s of %s", t, name)
				}
			default:
				vm.Unsupported("argument type %s of %s", t, name)
			}
			as = append(as, arg)
		}
		st := ax.Call(s, sym, as, delta, init)
		return st, nil, true
	}
}

// regSlot is the place of a register in the trampoline's array.
func regSlot(arch, reg string, lane int) (int64, bool) {
	names := []string{"rax", "rcx", "rdx", "rbx", "", "", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"}
	gp := int64(16)
	vp := "x"
	if arch == "arm64" {
		gp, vp = 32, "v"
		names = nil
		for i := 0; i < 27; i++ {
			if i == 18 {
				names = append(names, "")
				continue
			}
			names = append(names, fmt.Sprintf("r%d", i))
		}
	}
	for i, n := range names {
		if n == reg {
			return int64(8 * i), true
		}
	}
	var k int64
	if _, err := fmt.Sscanf(reg, vp+"%d", &k); err == nil && strings.HasPrefix(reg, vp) {
		return 8*gp + 16*k + int64(4*lane), true
	}
	return 0, false
}

// asmTarget is the name of the tree's assembly block function.
func (e *Env) asmTarget(arch string) (string, error) {
	fs, _ := filepath.Glob(filepath.Join(e.Repo, "*_"+arch+".go"))
	for _, f := range fs {
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
		if err != nil {
			return "", err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body != nil || fd.Recv != nil {
				continue
			}
			var ts []string
			for _, p := range fd.Type.Params.List {
				for range max(1, len(p.Names)) {
					ts = append(ts, types.ExprString(p.Type))
				}
			}
			if strings.Join(ts, ";") == "[]uint32;[]byte;[]uint32;[][5]uint32" && fd.Type.Results == nil {
				return fd.Name.Name, nil
			}
		}
	}
	return "", fmt.Errorf("no assembly function of the expected shape for %s", arch)
}

const trampGo = `package sha1cd

//go:noescape
func zzTramp0(regs []byte, h []uint32, p []byte, m1 []uint32, cs [][5]uint32)

//go:noescape
func zzTramp1(regs []byte, h []uint32, p []byte, m1 []uint32, cs [][5]uint32)

// ZZAsm calls the assembly block function with the given registers, at one
// of two stack alignments.
func ZZAsm(odd bool, regs []byte, h []uint32, p []byte, m1 []uint32, cs [][5]uint32) {
	if odd {
		zzTramp1(regs, h, p, m1, cs)
		return
	}
	zzTramp0(regs, h, p, m1, cs)
}

var (
	ZZRegs []byte
	ZZOdd  bool
)

// zzAsmCall stands in for the library's own calls.
func zzAsmCall(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) {
	ZZAsm(ZZOdd, ZZRegs, h, p, m1, cs)
}
`

// trampOverlay makes the trampolines for the current tree.
func (e *Env) trampOverlay(arch string, have map[string][]byte) (map[string][]byte, error) {
	target, err := e.asmTarget(arch)
	if err != nil {
		return nil, err
	}
	var sb strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&sb, f+"\n", a...) }
	w("#include \"textflag.h\"")
	for v := 0; v < 2; v++ {
		switch arch {
		case "amd64":
			w("TEXT ·zzTramp%d(SB), 0, $%d-120", v, 104+8*v)
			for i := 0; i < 12; i++ {
				w("\tMOVQ a%d+%d(FP), AX\n\tMOVQ AX, %d(SP)", i, 24+8*i, 8*i)
			}
			w("\tMOVQ regs+0(FP), AX")
			for i := 0; i < 16; i++ {
				w("\tMOVOU %d(AX), X%d", 128+16*i, i)
			}
			for i, n := range []string{"", "CX", "DX", "BX", "", "", "SI", "DI", "R8", "R9", "R10", "R11", "R12", "R13", "R14", "R15"} {
				if n != "" {
					w("\tMOVQ %d(AX), %s", 8*i, n)
				}
			}
			w("\tMOVQ (AX), AX\n\tCALL ·%s(SB)\n\tRET\n", target)
		case "arm64":
			w("TEXT ·zzTramp%d(SB), 0, $%d-120", v, 112+16*v)
			for i := 0; i < 12; i++ {
				w("\tMOVD a%d+%d(FP), R0\n\tMOVD R0, %d(RSP)", i, 24+8*i, 8+8*i)
			}
			w("\tMOVD regs+0(FP), R0\n\tADD $256, R0, R1")
			for i := 0; i < 32; i += 4 {
				w("\tVLD1.P 64(R1), [V%d.B16, V%d.B16, V%d.B16, V%d.B16]", i, i+1, i+2, i+3)
			}
			for i := 1; i < 27; i++ {
				if i != 18 {
					w("\tMOVD %d(R0), R%d", 8*i, i)
				}
			}
			w("\tMOVD (R0), R0\n\tCALL ·%s(SB)\n\tRET\n", target)
		}
	}
	out := map[string][]byte{
		filepath.Join(e.Repo, "zz_tramp.go"):         []byte(trampGo),
		filepath.Join(e.Repo, "zz_tramp_"+arch+".s"): []byte(sb.String()),
	}
	// the library's calls go through the trampoline, too
	fs, _ := filepath.Glob(filepath.Join(e.Repo, "*.go"))
	n := 0
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := current(have, f)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		var at []int
		ast.Inspect(af, func(x ast.Node) bool {
			if c, ok := x.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == target {
					at = append(at, fset.Position(id.Pos()).Offset)
				}
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		n += len(at)
		slices.Sort(at)
		var b []byte
		last := 0
		for _, o := range at {
			b = append(append(b, src[last:o]...), "zzAsmCall"...)
			last = o + len(target)
		}
		out[f] = append(b, src[last:]...)
	}
	if n == 0 {
		return nil, fmt.Errorf("no call of %s", target)
	}
	return out, nil
}
