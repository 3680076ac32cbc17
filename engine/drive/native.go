package drive

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// goRoot is the toolchain that loads and builds the tree.
const goRoot = "/opt/veriftools/go1.26.10"

// SetupGoEnv pins the toolchain for everything the engine starts.
func (e *Env) SetupGoEnv() {
	if _, err := os.Stat(goRoot); err == nil {
		os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	}
	os.Unsetenv("GOROOT")
	// a private copy of the module cache: the go command writes lock files there
	mod := filepath.Join(e.Verif, ".cache", "mod")
	if _, err := os.Stat(filepath.Join(mod, "cache")); err != nil {
		os.MkdirAll(filepath.Dir(mod), 0o755)
		exec.Command("cp", "-r", "/opt/vp/go/pkg/mod", mod).Run()
	}
	for k, v := range map[string]string{
		"GOTOOLCHAIN": "local", "GOSUMDB": "off", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off", "GOENV": "off",
		"GOMODCACHE": mod, "GOPATH": filepath.Join(e.Verif, ".cache", "gopath"), "GOCACHE": filepath.Join(e.Verif, ".cache", "go"),
	} {
		os.Setenv(k, v)
	}
}

// overlayFor gives the extra files of a configuration.
func (e *Env) overlayFor(c Cfg) (map[string][]byte, error) {
	o := map[string][]byte{}
	for k, v := range e.Overlay {
		o[k] = v
	}
	for tag, f := range map[string]string{"zzcgostate": "zz_state.go", "zzcgotab": "zz_table.go", "zzcgohook": "zz_hook.go"} {
		if strings.Contains(c.Tags, tag) {
			b, err := os.ReadFile(filepath.Join(e.Verif, "harness", "cgostate", f))
			if err != nil {
				return nil, err
			}
			o[filepath.Join(e.Repo, "cgo", f)] = b
		}
	}
	if strings.Contains(c.Tags, "zzcgohook") {
		fs, err := e.cHooked()
		if err != nil {
			return nil, err
		}
		for k, v := range fs {
			o[k] = v
		}
	}
	if strings.Contains(c.Tags, "zzasm") {
		fs, err := e.trampOverlay(c.Arch, o)
		if err != nil {
			return nil, err
		}
		for k, v := range fs {
			o[k] = v
		}
	}
	if c.Hook {
		h, err := e.hookOverlay(o)
		if err != nil {
			return nil, err
		}
		for k, v := range h {
			o[k] = v
		}
	}
	return o, nil
}

const hookSrc = `package sha1cd

// ZZHook sees and may change what the detection is given.
var ZZHook func(m1 *[80]uint32, cs *[3][5]uint32, h *[5]uint32)

func checkCollision(m1 *[80]uint32, cs *[3][5]uint32, h *[5]uint32) bool {
	if ZZHook != nil {
		ZZHook(m1, cs, h)
	}
	return zzCheckCollision(m1, cs, h)
}
`

// current reads a file of the tree as changed so far.
func current(have map[string][]byte, f string) ([]byte, error) {
	if b, ok := have[f]; ok {
		return b, nil
	}
	return os.ReadFile(f)
}

// detection finds the detection entry point in the current source: the
// function of that name, or else the one that takes three arrays, returns a
// verdict and asks for the mask.
func (e *Env) detection(have map[string][]byte) (file, name string, src []byte, off int, err error) {
	fs, _ := filepath.Glob(filepath.Join(e.Repo, "*.go"))
	found := 0
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := current(have, f)
		if err != nil {
			return "", "", nil, 0, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, b, parser.SkipObjectResolution)
		if err != nil {
			return "", "", nil, 0, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Body == nil {
				continue
			}
			exact := fd.Name.Name == "checkCollision"
			if exact || detects(fd) {
				if found++; exact || found == 1 {
					file, name, src, off = f, fd.Name.Name, b, fset.Position(fd.Name.Pos()).Offset
				}
				if exact {
					return file, name, src, off, nil
				}
			}
		}
	}
	if found != 1 {
		return "", "", nil, 0, fmt.Errorf("no detection function to hook")
	}
	return
}

func detects(fd *ast.FuncDecl) bool {
	r := fd.Type.Results
	if r == nil || len(r.List) != 1 || len(r.List[0].Names) > 1 {
		return false
	}
	if id, ok := r.List[0].Type.(*ast.Ident); !ok || id.Name != "bool" {
		return false
	}
	n := 0
	for _, p := range fd.Type.Params.List {
		st, ok := p.Type.(*ast.StarExpr)
		if !ok {
			return false
		}
		if _, ok := st.X.(*ast.ArrayType); !ok {
			return false
		}
		n += max(len(p.Names), 1)
	}
	calls := false
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		if s, ok := x.(*ast.SelectorExpr); ok && s.Sel.Name == "CalculateDvMask" {
			calls = true
		}
		return true
	})
	return n == 3 && calls
}

// hookOverlay renames the detection entry point of the current source so that
// a harness can observe and replace its inputs.
func (e *Env) hookOverlay(have map[string][]byte) (map[string][]byte, error) {
	f, name, src, off, err := e.detection(have)
	if err != nil {
		return nil, err
	}
	out := append([]byte{}, src[:off]...)
	out = append(out, "zzCheckCollision"...)
	out = append(out, src[off+len(name):]...)
	hook := strings.Replace(hookSrc, "func checkCollision", "func "+name, 1)
	return map[string][]byte{f: out, filepath.Join(e.Repo, "zz_verif_hook.go"): []byte(hook)}, nil
}

type natEntry struct {
	once sync.Once
	path string
	err  error
}

func (e *Env) scratch() string {
	e.scratchOnce.Do(func() {
		e.scratchDir, _ = os.MkdirTemp("", "verif-")
	})
	return e.scratchDir
}

// Close removes scratch files.
func (e *Env) Close() {
	if e.scratchDir != "" {
		os.RemoveAll(e.scratchDir)
	}
}

// overlayJSON writes an overlay for the go command.
func (e *Env) overlayJSON(dir string, o map[string][]byte) (string, error) {
	rep := map[string]string{}
	n := 0
	for k, v := range o {
		f := filepath.Join(dir, fmt.Sprintf("o%d%s", n, filepath.Ext(k)))
		n++
		if err := os.WriteFile(f, v, 0o644); err != nil {
			return "", err
		}
		rep[k] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

const mainSrc = `package main

import "%s/zzverif"

func main() { zzverif.Main() }
`

// goMod reads the module path of the tree.
func (e *Env) modPath() string {
	b, _ := os.ReadFile(filepath.Join(e.Repo, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == "module" {
			return f[1]
		}
	}
	return "github.com/pjbgf/sha1cd"
}

// Native builds the harness program for a configuration.
func (e *Env) Native(c Cfg, race bool) (string, error) {
	key := fmt.Sprint(c, race)
	e.mu.Lock()
	if e.natives == nil {
		e.natives = map[string]*natEntry{}
	}
	ne := e.natives[key]
	if ne == nil {
		ne = &natEntry{}
		e.natives[key] = ne
	}
	e.mu.Unlock()
	ne.once.Do(func() { ne.path, ne.err = e.buildNative(c, race) })
	return ne.path, ne.err
}

func (e *Env) buildNative(c Cfg, race bool) (string, error) {
	dir, err := os.MkdirTemp(e.scratch(), "nat")
	if err != nil {
		return "", err
	}
	o, err := e.overlayFor(c)
	if err != nil {
		return "", err
	}
	o[filepath.Join(e.Repo, "zzverif", "zzmain", "main.go")] = []byte(fmt.Sprintf(mainSrc, e.modPath()))
	oj, err := e.overlayJSON(dir, o)
	if err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", oj, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	if t := c.tags(); t != "" {
		args = append(args, "-tags", t)
	}
	args = append(args, "./zzverif/zzmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = e.Repo
	cmd.Env = append(os.Environ(), "GOOS=linux", "GOARCH="+c.Arch)
	if c.Cgo || race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		if c.CFlags != "" {
			cmd.Env = append(cmd.Env, "CGO_CFLAGS=-O2 -g "+c.CFlags)
		}
	} else {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build %v: %s", c, firstLines(string(out), 6))
	}
	return bin, nil
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

var hostSHA = sync.OnceValue(func() bool {
	b, _ := os.ReadFile("/proc/cpuinfo")
	return bytes.Contains(b, []byte(" sha_ni"))
})

// runner gives the command prefix that executes a binary of c.
func runner(c Cfg, cpu string) ([]string, bool) {
	asm := !strings.Contains(c.Tags, "noasm")
	switch c.Arch {
	case "amd64":
		if !asm || cpu == "" {
			return nil, true
		}
		if strings.HasPrefix(cpu, "qemu:") {
			return []string{"qemu-x86_64", "-cpu", cpu[5:]}, true
		}
		if cpu == "on" {
			if hostSHA() {
				return nil, true
			}
			return []string{"qemu-x86_64", "-cpu", "max"}, true
		}
		return []string{"qemu-x86_64", "-cpu", "Nehalem"}, true
	case "386":
		return nil, true
	case "arm64":
		if asm && cpu == "off" {
			return []string{"qemu-aarch64", "-cpu", "cortex-a57,aarch64=on", "-L", "/usr/aarch64-linux-gnu"}, true
		}
		return []string{"qemu-aarch64", "-cpu", "max", "-L", "/usr/aarch64-linux-gnu"}, true
	case "s390x", "mips", "mips64", "riscv64", "ppc64le", "ppc64", "mipsle":
		q := map[string]string{"mipsle": "mipsel"}[c.Arch]
		if q == "" {
			q = c.Arch
		}
		return []string{"qemu-" + q}, true
	case "arm":
		return []string{"qemu-arm", "-cpu", "max"}, true
	}
	return nil, false
}

// cpuFor chooses the processor for a replay of job with the given inputs.
func cpuFor(job Job, env map[string]uint64) string {
	if job.CPU != "sym" {
		return job.CPU
	}
	has := func(f string) bool {
		if env["cpu_"+f]&1 == 1 {
			return true
		}
		for _, n := range cpuImplied[f] {
			if env["cpu_"+n]&1 == 1 {
				return true
			}
		}
		return false
	}
	if job.Cfg.Arch == "arm64" {
		if has("SHA1") {
			return "on"
		}
		return "off"
	}
	m := "qemu:max"
	off := func(f string, names ...string) {
		if !has(f) {
			for _, n := range names {
				m += "," + n + "=off"
			}
		}
	}
	off("AVX", "avx", "avx2", "f16c", "fma", "vaes", "vpclmulqdq", "bmi1", "bmi2")
	off("SHA", "sha-ni")
	off("SSE4", "sse4.1", "sse4.2")
	off("SSSE3", "ssse3")
	off("SSE3", "pni")
	return m
}

// ReplayFile is the recorded form of a counterexample.
type ReplayFile struct {
	Property string            `json:"property,omitempty"`
	Assert   string            `json:"assert,omitempty"`
	Config   string            `json:"config,omitempty"`
	How      string            `json:"how,omitempty"`
	Harness  string            `json:"harness"`
	Params   map[string]int    `json:"params"`
	Inputs   map[string]uint64 `json:"inputs"`
	Native   *NativeRes        `json:"native,omitempty"`
}

// NativeRes is what the real code did.
type NativeRes struct {
	File    string            `json:"file,omitempty"`
	Assumed bool              `json:"assumed"`
	Failed  []string          `json:"failed"`
	Outs    map[string]string `json:"outs,omitempty"`
	Race    bool              `json:"race,omitempty"`
	Crash   string            `json:"crash,omitempty"`
}

// RunNative executes recorded inputs against the real code.
func (e *Env) RunNative(c Cfg, cpu string, race bool, rfs []ReplayFile) ([]NativeRes, error) {
	bin, err := e.Native(c, race)
	if err != nil {
		return nil, err
	}
	pre, ok := runner(c, cpu)
	if !ok {
		return nil, fmt.Errorf("no way to run %v here", c)
	}
	dir, err := os.MkdirTemp(e.scratch(), "run")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	var out []NativeRes
	var files []string
	for i, rf := range rfs {
		b, _ := json.Marshal(rf)
		f := filepath.Join(dir, fmt.Sprintf("r%d.json", i))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	for len(files) > 0 {
		n := min(len(files), 200)
		args := append(append([]string{}, pre...), bin)
		args = append(args, files[:n]...)
		cmd := exec.Command(args[0], args[1:]...)
		cmd.Env = append(os.Environ(), "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=0 exitcode=66")
		cmd.Dir = dir
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		var late atomic.Bool
		limit := max(time.Duration(n)*2*time.Second, 100*time.Second)
		if n == 1 {
			rf := rfs[len(rfs)-len(files)]
			limit += time.Duration(mib(rf.Harness, rf.Params)) * 40 * time.Millisecond
		}
		t := time.AfterFunc(limit, func() { late.Store(true); cmd.Process.Kill() })
		werr := cmd.Wait()
		t.Stop()
		got := 0
		for _, l := range strings.Split(so.String(), "\n") {
			if !strings.HasPrefix(l, "{") {
				if strings.HasPrefix(l, "ERROR") {
					return nil, fmt.Errorf("%s", l)
				}
				continue
			}
			var r NativeRes
			if json.Unmarshal([]byte(l), &r) == nil {
				r.File = ""
				out = append(out, r)
				got++
			}
		}
		raced := strings.Contains(se.String(), "DATA RACE")
		if raced && got > 0 {
			out[len(out)-1].Race = true
		}
		if got < n {
			// the process died on input got
			if werr == nil {
				return nil, fmt.Errorf("replay: short output")
			}
			how := "crash"
			if late.Load() {
				how = "hang"
			}
			out = append(out, NativeRes{Assumed: true, Failed: []string{how}, Crash: firstLines(se.String(), 4) + " " + werr.Error(), Race: raced})
			got++
		}
		files = files[got:]
	}
	return out, nil
}
