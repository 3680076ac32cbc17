package drive

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/engine/gossa"
	"verif/engine/llvm"
	"verif/engine/vm"
)

type cEntry struct {
	once sync.Once
	ll   map[string]string // name -> textual IR
	err  error
}

func tool(names ...string) string {
	for _, n := range names {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return names[0]
}

// cModules compiles the C side of the cgo package to LLVM IR, from the
// current source: every C file of the package and every cgo preamble.
func (e *Env) cModules(c Cfg) ([]*llvm.Module, error) {
	e.mu.Lock()
	if e.cmods == nil {
		e.cmods = map[string]*cEntry{}
	}
	key := fmt.Sprint(c.CFlags, strings.Contains(c.Tags, "zzcgotab"), strings.Contains(c.Tags, "zzcgohook"))
	ce := e.cmods[key]
	if ce == nil {
		ce = &cEntry{}
		e.cmods[key] = ce
	}
	e.mu.Unlock()
	ce.once.Do(func() { ce.ll, ce.err = e.compileC(c) })
	if ce.err != nil {
		return nil, ce.err
	}
	var out []*llvm.Module
	for n, t := range ce.ll {
		m, err := llvm.Parse(n, t)
		if err != nil {
			return nil, err
		}
		out = append(out, m)
	}
	return out, nil
}

func (e *Env) compileC(c Cfg) (map[string]string, error) {
	env := append(os.Environ(), e.GoEnv...)
	env = append(env, "GOOS=linux", "GOARCH=amd64", "CGO_ENABLED=1")
	run := func(dir string, name string, args ...string) (string, error) {
		cmd := exec.Command(name, args...)
		cmd.Dir, cmd.Env = dir, env
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Run(); err != nil {
			return "", fmt.Errorf("%s: %v: %s", filepath.Base(name), err, firstLines(se.String(), 3))
		}
		return so.String(), nil
	}
	dir := filepath.Join(e.Repo, "cgo")
	js, err := run(dir, "go", "list", "-json=Dir,CgoFiles,CFiles,CgoCFLAGS,CgoCPPFLAGS", ".")
	if err != nil {
		return nil, err
	}
	var li struct{ CgoFiles, CFiles, CgoCFLAGS, CgoCPPFLAGS []string }
	if err := json.Unmarshal([]byte(js), &li); err != nil {
		return nil, err
	}
	obj, err := os.MkdirTemp(e.scratch(), "cgo")
	if err != nil {
		return nil, err
	}
	flags := append(append([]string{}, li.CgoCPPFLAGS...), li.CgoCFLAGS...)
	flags = append(flags, strings.Fields(c.CFlags)...)
	if strings.Contains(c.Tags, "zzcgotab") {
		li.CgoFiles = append(li.CgoFiles, filepath.Join(e.Verif, "harness", "cgostate", "zz_table.go"))
	}
	hooked := map[string][]byte{}
	if strings.Contains(c.Tags, "zzcgohook") {
		li.CgoFiles = append(li.CgoFiles, filepath.Join(e.Verif, "harness", "cgostate", "zz_hook.go"))
		if hooked, err = e.cHooked(); err != nil {
			return nil, err
		}
	}
	args := append([]string{"tool", "cgo", "-objdir", obj, "--"}, append(append([]string{"-I", dir}, flags...), li.CgoFiles...)...)
	if _, err := run(dir, "go", args...); err != nil {
		return nil, err
	}
	var files []string
	for _, f := range li.CFiles {
		g := filepath.Join(dir, f)
		if b, ok := hooked[g]; ok {
			g = filepath.Join(obj, f)
			if err := os.WriteFile(g, b, 0o644); err != nil {
				return nil, err
			}
		}
		files = append(files, g)
	}
	for _, f := range li.CgoFiles {
		files = append(files, filepath.Join(obj, strings.TrimSuffix(filepath.Base(f), ".go")+".cgo2.c"))
	}
	clang, opt := tool("clang-18", "clang", "/usr/lib/llvm-18/bin/clang"), tool("opt-18", "opt", "/usr/lib/llvm-18/bin/opt")
	out := map[string]string{}
	for i, f := range files {
		raw := filepath.Join(obj, fmt.Sprintf("m%d.raw.ll", i))
		ll := filepath.Join(obj, fmt.Sprintf("m%d.ll", i))
		a := append([]string{"-w", "-O1", "-Xclang", "-disable-llvm-passes", "-fwrapv", "-fno-strict-aliasing", "-S", "-emit-llvm", "-I", dir, "-I", obj}, flags...)
		if _, err := run(dir, clang, append(a, f, "-o", raw)...); err != nil {
			return nil, err
		}
		if _, err := run(dir, opt, "-S", "-passes=sroa", raw, "-o", ll); err != nil {
			return nil, err
		}
		b, err := os.ReadFile(ll)
		if err != nil {
			return nil, err
		}
		out[filepath.Base(f)] = string(b)
	}
	return out, nil
}

// cHooked rewrites the C files that call ubc_check (other than the one that
// defines it) to go through the harness's wrapper.
func (e *Env) cHooked() (map[string][]byte, error) {
	dir := filepath.Join(e.Repo, "cgo")
	fs, _ := filepath.Glob(filepath.Join(dir, "*.c"))
	out := map[string][]byte{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ls := strings.Split(string(b), "\n")
		last, calls, defs := -1, false, false
		for i, l := range ls {
			t := strings.TrimSpace(l)
			if strings.HasPrefix(t, "#include") && strings.Contains(t, "ubc_check.h") {
				last = i
			}
			if k := strings.Index(t, "ubc_check("); k >= 0 && !strings.HasPrefix(t, "/") && !strings.HasPrefix(t, "*") && !strings.HasPrefix(t, "#") {
				if strings.HasPrefix(t, "void ubc_check(") {
					defs = true
				} else {
					calls = true
				}
			}
		}
		if last < 0 || !calls || defs {
			continue
		}
		ls[last] += "\nvoid zz_ubc_check(const uint32_t *, uint32_t *);\n#define ubc_check(a, b) zz_ubc_check((a), (b))"
		out[f] = []byte(strings.Join(ls, "\n"))
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("no call of ubc_check to hook")
	}
	return out, nil
}

// installC connects the Go side's C calls to the LLVM executor.
func (j *runJob) installC() error {
	mods, err := j.e.cModules(j.job.Cfg)
	if err != nil {
		return err
	}
	lx := llvm.New(j.x.M, mods)
	j.lx = lx
	prev := j.x.Stub
	j.x.Stub = func(fn *ssa.Function) gossa.Intrinsic {
		n := fn.Name()
		switch {
		case n == "_cgoCheckPointer" || n == "_cgoCheckResult":
			return func(x *gossa.X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) { return s, nil }
		case strings.HasPrefix(n, "_Cfunc_"):
			f := lx.Lookup(strings.TrimPrefix(n, "_Cfunc_"))
			if f == nil {
				vm.Unsupported("C function %s not found", n)
			}
			return func(x *gossa.X, s *vm.State, a []vm.Value) (*vm.State, []vm.Value) {
				call := lx.Override["go:"+f.Name]
				if call == nil {
					call = func(s *vm.State, a []vm.Value) (*vm.State, []vm.Value) { return lx.Call(s, f, a) }
				}
				st, rs := call(s, a)
				if st == nil {
					return nil, nil
				}
				if f.Ret.K == "void" {
					return st, x.ZeroResults(fn)
				}
				return st, rs
			}
		}
		if prev != nil {
			return prev(fn)
		}
		return nil
	}
	return nil
}
