// Package drive runs verification jobs.
package drive

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/engine/gossa"
	"verif/engine/llvm"
	"verif/engine/prove"
	"verif/engine/smt"
	"verif/engine/term"
	"verif/engine/vm"
)

// Cfg is one build configuration of the library.
type Cfg struct {
	Arch string
	Tags string
	Cgo  bool
	Hook bool // the detection entry point is hooked

	CFlags string // extra flags for the C side
}

func (c Cfg) tags() string {
	t := c.Tags
	if c.Hook {
		if t != "" {
			t += ","
		}
		t += "zzhook"
	}
	return t
}

func (c Cfg) String() string {
	s := c.Arch
	if c.Tags != "" {
		s += "," + c.Tags
	}
	if c.Cgo {
		s += ",cgo"
	}
	if c.Hook {
		s += ",hook"
	}
	if c.CFlags != "" {
		s += "," + c.CFlags
	}
	return s
}

// Job is one bounded query family: a harness with concrete parameters.
type Job struct {
	Harness string
	Params  map[string]int
	Cfg     Cfg
	CPU     string // on, off, sym
	Budget  time.Duration
	Count   []string // only assertions with these prefixes count (none: all)
	Seeds   func(seed uint64) []map[string]uint64
	Race    bool // replay under the race detector
	Abs     int  // 1: the detection's verdict is any function of what it is given; 2: it finds nothing; 3: so is the effect of whole blocks
	Trust   bool // a solver counterexample need not replay natively (never set for library code)
}

func (j Job) Name() string {
	var ks []string
	for k := range j.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := j.Harness + "{"
	for i, k := range ks {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf("%s=%d", k, j.Params[k])
	}
	s += "}@" + j.Cfg.String() + "/cpu=" + j.CPU
	if j.Abs > 0 {
		s += fmt.Sprintf("/abs%d", j.Abs)
	}
	return s
}

type observed struct {
	ID string
	PC []*term.Term
	Ts []*term.Term
}

type runJob struct {
	e        *Env
	prog     *gossa.Prog
	x        *gossa.X
	job      Job
	observed []observed
	lx       *llvm.X
}

// Env is shared by all jobs of a run.
type Env struct {
	Repo    string
	Verif   string
	Seed    uint64
	Tier    string
	Overlay map[string][]byte
	GoEnv   []string
	Stats   *smt.Stats
	Cache   *smt.Cache
	Certs   *prove.Certs
	// no more confirming of normaliser steps after this (zero: no limit)
	CertUntil time.Time
	Verbose   bool

	mu    sync.Mutex
	progs map[Cfg]*progEntry

	cmods       map[string]*cEntry
	natives     map[string]*natEntry
	images      map[Cfg]*imgEntry
	scratchOnce sync.Once
	scratchDir  string

	stop      atomic.Bool // a violation is confirmed: finish quickly
	confirmMu sync.Mutex
	heavy     int
}

type progEntry struct {
	once sync.Once
	p    *gossa.Prog
	err  error
}

func NewEnv(repo, verif string) *Env {
	return &Env{Repo: repo, Verif: verif, Stats: &smt.Stats{}, Cache: smt.NewCache(), Certs: prove.NewCerts(), progs: map[Cfg]*progEntry{}, Overlay: map[string][]byte{}}
}

// LoadOverlay reads the harness sources.
func (e *Env) LoadOverlay() error {
	fs, err := filepath.Glob(filepath.Join(e.Verif, "harness", "zzverif", "*.go"))
	if err != nil {
		return err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		e.Overlay[filepath.Join(e.Repo, "zzverif", filepath.Base(f))] = b
	}
	return nil
}

func (e *Env) Prog(c Cfg) (*gossa.Prog, error) {
	e.mu.Lock()
	pe := e.progs[c]
	if pe == nil {
		pe = &progEntry{}
		e.progs[c] = pe
	}
	e.mu.Unlock()
	pe.once.Do(func() {
		o, err := e.overlayFor(c)
		if err != nil {
			pe.err = err
			return
		}
		pe.p, pe.err = gossa.Load(gossa.Config{Dir: e.Repo, GOARCH: c.Arch, Tags: c.tags(), Cgo: c.Cgo, Overlay: o, Env: e.GoEnv, Pkgs: []string{"./zzverif"}})
	})
	return pe.p, pe.err
}

// AssertRes is the verdict on one obligation.
type AssertRes struct {
	ID      string
	Kind    string
	Pos     string
	Verdict string // proved, violated, unknown
	How     string
	Env     map[string]uint64
	Ran     *NativeRes // replayed already
}

// JobRes is the outcome of a job.
type JobRes struct {
	Job     Job
	Err     string // outside the supported subset, or load failure
	Asserts []AssertRes
	Covers  []AssertRes
	Funcs   []string
	Terms   int
	Steps   int64
	Traces  []Trace
	Merged  int
	LocalQ  int
	// normaliser steps confirmed by the solver, not confirmed, refuted
	Certified, Open, Wrong int

	Stuck map[string]uint64 // an input that takes a loop past its bound

	ExecTime time.Duration
	Time     time.Duration
}

// Counts reports whether a harness assertion belongs to the property that the
// job is run for. An assertion may belong to several: C08+C11.name.
func (job *Job) Counts(id string) bool {
	if len(job.Count) == 0 || !strings.HasPrefix(id, "C") {
		return true
	}
	head, rest, _ := strings.Cut(id, ".")
	for _, h := range strings.Split(head, "+") {
		for _, c := range job.Count {
			if strings.HasPrefix(h+"."+rest, c) {
				return true
			}
		}
	}
	return false
}

// RunJob executes and decides one job.
func (e *Env) RunJob(job Job, solver *smt.Solver) (res JobRes) {
	t0 := time.Now()
	res.Job = job
	defer func() { res.Time = time.Since(t0) }()
	prog, err := e.Prog(job.Cfg)
	if err != nil {
		res.Err = err.Error()
		return
	}
	c := term.NewCtx()
	c.J = term.NewJournal()
	m := vm.NewM(c, prog.PtrSize)
	p := prove.New(c, solver, e.Seed)
	p.Verbose = e.Verbose
	if job.Seeds != nil {
		p.AddSeeds(job.Seeds(e.Seed))
	}
	m.Oracle = &prove.Oracle{P: p}
	p.Cancel, m.Cancel = e.stop.Load, e.stop.Load
	x := gossa.NewX(prog, m)
	j := &runJob{e: e, prog: prog, x: x, job: job}
	j.installVK()
	j.installAsm()
	if job.Cfg.Cgo {
		if err := j.installC(); err != nil {
			res.Err = err.Error()
			return
		}
	}
	x.CPU = func(name string) *term.Term {
		switch job.CPU {
		case "on":
			return c.True()
		case "sym":
			return cpuVar(c, name)
		}
		return c.False()
	}
	if job.Budget > 0 {
		m.Deadline = t0.Add(job.Budget)
		p.Deadline = t0.Add(job.Budget)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(vm.Abort); ok {
					res.Err = a.Msg + " (at " + m.Where + ")"
					return
				}
				if e.Verbose {
					panic(r)
				}
				res.Err = fmt.Sprintf("engine: %v (at %s)", r, m.Where)
			}
		}()
		if job.Abs > 0 {
			j.installAbs()
		}
		st := m.NewState()
		pkg := prog.Module + harnessPkg
		st = x.Init(st, pkg)
		fn := prog.Func(pkg, job.Harness)
		if fn == nil {
			vm.Unsupported("no harness %s", job.Harness)
		}
		m.Asserts, m.Covers = nil, nil
		x.Run(st, fn, nil)
	}()
	res.ExecTime = time.Since(t0)
	res.Funcs = m.Funcs()
	if res.Err != "" {
		if m.Stuck != nil {
			// an input on which the loop may not end
			if r, env := p.Full(c.And(m.Stuck...), 10*time.Second); r == smt.Sat {
				res.Stuck = j.complete(p, env)
			}
		}
		return
	}
	counts := func(a vm.Assertion) bool { return a.Kind != "assert" || job.Counts(a.ID) }
	violated := map[string]int{}
	for _, a := range m.Asserts {
		if !counts(a) {
			continue
		}
		if violated[a.ID] >= 2 {
			continue
		}
		ar := AssertRes{ID: a.ID, Kind: a.Kind, Pos: a.Pos}
		r := p.Prove(a.PC, a.Cond)
		ar.How = r.How
		switch r.Verdict {
		case smt.Unsat:
			ar.Verdict = "proved"
		case smt.Sat:
			ar.Verdict = "violated"
			ar.Env = j.complete(p, r.Env)
			violated[a.ID]++
			// one is enough: only look at the rest if that is cheap
			if d := time.Now().Add(15 * time.Second); p.Deadline.IsZero() || d.Before(p.Deadline) {
				p.Deadline = d
			}
		default:
			ar.Verdict = "unknown"
		}
		if e.Verbose {
			fmt.Fprintf(os.Stderr, "%s: %s %s (%s) %.1fs\n", job.Name(), a.ID, ar.Verdict, ar.How, time.Since(t0).Seconds())
		}
		res.Asserts = append(res.Asserts, ar)
	}
	steps := c.J.Steps
	c.J = nil
	if len(violated) == 0 && os.Getenv("NOCERT") == "" {
		res.Open, res.Wrong = e.Certs.Run(steps, len(c.All), solver, e.stop.Load, e.CertUntil)
		res.Certified = len(steps) - res.Open - res.Wrong
		j.covers(p, m, &res)
	}
	if job.Abs == 0 {
		j.traces(p, m, &res)
	}
	res.Terms = len(c.All)
	res.Steps = m.Steps
	res.Merged, res.LocalQ = p.Merged, p.LocalQ
	return
}

// cpuImplied lists the features whose presence implies the key's.
var cpuImplied = map[string][]string{
	"SSE3": {"SSSE3", "SSE4", "AVX"}, "SSSE3": {"SSE4", "AVX"}, "SSE4": {"AVX"},
}

// cpuVar is the symbolic presence of a CPU feature.
func cpuVar(c *term.Ctx, name string) *term.Term {
	t := c.Var("cpu_"+name, 1)
	for _, n := range cpuImplied[name] {
		t = c.Or(t, c.Var("cpu_"+n, 1))
	}
	return t
}

// complete extends an assignment to all inputs of the job.
func (j *runJob) complete(p *prove.P, env map[string]uint64) map[string]uint64 {
	out := map[string]uint64{}
	for _, t := range p.C.All {
		if t.Op == term.OVar {
			if v, ok := env[t.Name]; ok {
				out[t.Name] = v
			} else {
				out[t.Name] = 0
			}
		}
	}
	return out
}

// covers decides the reachability witnesses.
func (j *runJob) covers(p *prove.P, m *vm.M, res *JobRes) {
	done := map[string]bool{}
	for _, c := range m.Covers {
		if done[c.ID] {
			continue
		}
		g := p.C.And(append([]*term.Term{c.Cond}, c.PC...)...)
		ar := AssertRes{ID: c.ID, Kind: "cover", Pos: c.Pos, Verdict: "unreached"}
		for _, v := range p.Sim(g) {
			if v == 1 {
				ar.Verdict, ar.How = "reached", "simulation"
			}
		}
		if ar.Verdict != "reached" && !g.IsFalse() && len(term.Cone([]*term.Term{g}, nil)) < 3000 {
			if r, _ := p.Full(g, 10*time.Second); r == smt.Sat {
				ar.Verdict, ar.How = "reached", "solver"
			}
		}
		done[c.ID] = ar.Verdict == "reached"
		res.Covers = append(res.Covers, ar)
	}
}

// Trace is one concrete run predicted by the encoding.
type Trace struct {
	Inputs map[string]uint64
	Failed map[string]bool
	Outs   map[string]string
}

// traces predicts the outcome of a few concrete runs, for comparison with the
// real code.
func (j *runJob) traces(p *prove.P, m *vm.M, res *JobRes) {
	ks := []int{0}
	for k := p.NRand; k < p.K && len(ks) < 4; k++ {
		ks = append(ks, k)
	}
	for _, k := range ks {
		t := Trace{Inputs: map[string]uint64{}, Failed: map[string]bool{}, Outs: map[string]string{}}
		for _, v := range p.C.All {
			if v.Op == term.OVar {
				t.Inputs[v.Name] = p.VarVal(v, k)
			}
		}
		at := func(x *term.Term) uint64 { return p.Sim(x)[k] }
		for _, a := range m.Asserts {
			if a.Kind == "watch" {
				continue
			}
			if at(p.C.And(append([]*term.Term{p.C.Not(a.Cond)}, a.PC...)...)) == 1 {
				id := a.ID
				if a.Kind == "panic" {
					id = "panic"
				}
				t.Failed[id] = true
			}
		}
		for _, o := range j.observed {
			if at(p.C.And(o.PC...)) != 1 {
				continue
			}
			b := make([]byte, len(o.Ts))
			for i, x := range o.Ts {
				b[i] = byte(at(x))
			}
			t.Outs[o.ID] = fmt.Sprintf("%x", b)
		}
		res.Traces = append(res.Traces, t)
	}
}
