package drive

import (
	"encoding/json"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/engine/smt"
)

// Report collects the outcome of a check.
type Report struct {
	mu         sync.Mutex
	Prop       string
	Jobs       []JobRes
	Violations []Viol
	Undecided  []string
	Unreplayed []string
	Probes     int // runs of the real code where the encoding stopped
	Traces     int
	TraceBad   []string
	Notes      []string
	Extra      map[string]any
	Obl, Dis   int
	Syntactic  int
	Samples    []any
}

// Viol is a confirmed violation.
type Viol struct {
	Assert, Path, Note string
}

func (r *Report) Note(f string, a ...any) {
	r.mu.Lock()
	r.Notes = append(r.Notes, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// Check runs the plan of a property; the result is the exit status.
func (e *Env) Check(prop, level string) int {
	t0 := time.Now()
	plan := PlanFor(prop, e.Tier == "thorough", e.Seed)
	rep := &Report{Prop: prop, Extra: map[string]any{}}
	limit := 600 * time.Second
	if e.Tier == "thorough" {
		limit = 3 * time.Hour
	}
	end := t0.Add(limit)
	e.CertUntil = t0.Add(limit * 2 / 3)

	// biggest budgets first
	jobs := append([]Job{}, plan.Jobs...)
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].Budget > jobs[j].Budget })
	ch := make(chan Job)
	var wg sync.WaitGroup
	nw := min(runtime.NumCPU(), 8)
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := smt.New(e.Stats, e.Cache, "z3-new", "-in", "memory_max_size=2000")
			defer s.Close()
			for j := range ch {
				if e.stop.Load() {
					continue
				}
				left := time.Until(end)
				if left < 5*time.Second {
					rep.mu.Lock()
					rep.Undecided = append(rep.Undecided, j.Name()+": not started (time)")
					rep.mu.Unlock()
					continue
				}
				if j.Budget == 0 || j.Budget > left {
					j.Budget = min(left, 200*time.Second)
				}
				r := e.RunJob(j, s)
				if r.Err == "stopped" || e.stop.Load() && r.Err != "" {
					continue
				}
				if e.confirm(rep.Prop, &r) {
					e.stop.Store(true)
				}
				rep.mu.Lock()
				rep.Jobs = append(rep.Jobs, r)
				rep.mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, x := range plan.Extra {
		x(e, rep)
	}
	e.judge(rep)
	return e.finish(rep, plan, level, t0)
}

// confirm replays the first counterexample of a job right away.
func (e *Env) confirm(prop string, r *JobRes) bool {
	for k := range r.Asserts {
		a := &r.Asserts[k]
		if a.Verdict != "violated" {
			continue
		}
		e.confirmMu.Lock()
		defer e.confirmMu.Unlock()
		if e.stop.Load() {
			return true
		}
		if mib(r.Job.Harness, r.Job.Params) > 64 {
			if e.heavy++; e.heavy > 2 {
				return false
			}
		}
		rf := ReplayFile{Property: prop, Assert: a.ID, Harness: r.Job.Harness, Params: r.Job.Params, Inputs: a.Env}
		res, err := e.RunNative(r.Job.Cfg, cpuFor(r.Job, a.Env), r.Job.Race || a.Kind == "watch", []ReplayFile{rf})
		for _, f := range e.knownFindings(prop) {
			if strings.Contains(f, a.ID) {
				return false
			}
		}
		if err != nil || len(res) != 1 {
			return false
		}
		a.Ran = &res[0]
		return reproduces(a, res[0])
	}
	return false
}

// reproduces reports whether the real code fails as predicted.
func reproduces(a *AssertRes, nr NativeRes) bool {
	if !nr.Assumed {
		return false
	}
	for _, f := range nr.Failed {
		if f == a.ID || f == "crash" || strings.HasPrefix(a.ID, "panic:") && strings.HasPrefix(f, "panic:") {
			return true
		}
	}
	return a.Kind == "watch" && (nr.Race || len(nr.Failed) > 0)
}

// judge confirms counterexamples against the real code and compares the
// predicted concrete runs with it.
func (e *Env) judge(rep *Report) {
	type key struct {
		c    Cfg
		cpu  string
		race bool
	}
	type item struct {
		rf  ReplayFile
		job int
		a   *AssertRes
		t   *Trace
	}
	group := map[key][]item{}
	probes := map[Cfg]int{}
	seen := map[string]int{}
	for i := range rep.Jobs {
		r := &rep.Jobs[i]
		if r.Err != "" {
			rep.Undecided = append(rep.Undecided, r.Job.Name()+": "+r.Err)
			// what the encoding does not reach still has to run
			if e.stop.Load() || probes[r.Job.Cfg] >= 60 || mib(r.Job.Harness, r.Job.Params) > 64 {
				continue
			}
			ins := []map[string]uint64{{}, {}}
			if r.Job.Seeds != nil {
				sd := r.Job.Seeds(e.Seed)
				ins = append(ins, sd[:min(len(sd), 3)]...)
			}
			if r.Stuck != nil {
				ins = append([]map[string]uint64{r.Stuck}, ins...)
			}
			for k, in := range ins {
				in := maps.Clone(in)
				in["zzseed"] = e.Seed + uint64(k)
				probes[r.Job.Cfg]++
				kk := key{r.Job.Cfg, cpuFor(r.Job, in), false}
				group[kk] = append(group[kk], item{ReplayFile{Harness: r.Job.Harness, Params: r.Job.Params, Inputs: in}, i, nil, nil})
			}
			continue
		}
		if r.Wrong > 0 {
			rep.Obl += len(r.Asserts)
			rep.Undecided = append(rep.Undecided, fmt.Sprintf("%s: the solver refutes %d steps of the normaliser (%s)", r.Job.Name(), r.Wrong, e.Certs.Sample))
			continue
		}
		for k := range r.Asserts {
			a := &r.Asserts[k]
			if strings.HasPrefix(a.How, "syntactic") {
				rep.Syntactic++
			}
			rep.Obl++
			switch a.Verdict {
			case "proved":
				rep.Dis++
			case "unknown":
				rep.Undecided = append(rep.Undecided, r.Job.Name()+": "+a.ID+" not decided within the time bound")
			case "violated":
				id := a.ID + "@" + r.Job.Cfg.String()
				if seen[id] < 6 {
					seen[id]++
					kk := key{r.Job.Cfg, cpuFor(r.Job, a.Env), r.Job.Race || a.Kind == "watch"}
					group[kk] = append(group[kk], item{ReplayFile{Property: rep.Prop, Assert: a.ID, Config: r.Job.Cfg.String() + "/cpu=" + r.Job.CPU, How: a.How, Harness: r.Job.Harness, Params: r.Job.Params, Inputs: a.Env}, i, a, nil})
				}
			}
		}
		for k := range r.Traces {
			if e.stop.Load() {
				break
			}
			t := &r.Traces[k]
			kk := key{r.Job.Cfg, cpuFor(r.Job, t.Inputs), false}
			group[kk] = append(group[kk], item{ReplayFile{Harness: r.Job.Harness, Params: r.Job.Params, Inputs: t.Inputs}, i, nil, t})
		}
	}
	n := 0
	// writes of many MiB one at a time, the shortest first, until one confirms
	type heavy struct {
		k  key
		it item
	}
	var hv []heavy
	for k, items := range group {
		var light []item
		for _, it := range items {
			if mib(it.rf.Harness, it.rf.Params) > 64 {
				hv = append(hv, heavy{k, it})
			} else {
				light = append(light, it)
			}
		}
		if group[k] = light; len(light) == 0 {
			delete(group, k)
		}
	}
	sort.SliceStable(hv, func(i, j int) bool {
		if x, y := hv[i].it.a, hv[j].it.a; x != nil && y != nil && (x.Ran != nil) != (y.Ran != nil) {
			return x.Ran != nil
		}
		return hv[i].it.rf.Params["len"] < hv[j].it.rf.Params["len"]
	})
	defer func() {
		for i, h := range hv {
			if n > 0 || i == 3 {
				rep.Note("%d long counterexamples not replayed", len(hv)-i)
				return
			}
			items := []item{h.it}
			var res []NativeRes
			if h.it.a != nil && h.it.a.Ran != nil {
				res = []NativeRes{*h.it.a.Ran}
			} else {
				res, _ = e.RunNative(h.k.c, h.k.cpu, false, []ReplayFile{h.it.rf})
			}
			if len(res) == 1 {
				e.judgeGroup(rep, items2(items, func(i int) jitem { return jitem{items[i].rf, items[i].a, items[i].t, &rep.Jobs[items[i].job]} }), res, &n)
			}
		}
	}()
	for k, items := range group {
		var rfs []ReplayFile
		for _, it := range items {
			rfs = append(rfs, it.rf)
		}
		if k.race { // one process each: a race report names no input
			var all []NativeRes
			var err error
			for _, rf := range rfs {
				var rs []NativeRes
				rs, err = e.RunNative(k.c, k.cpu, true, []ReplayFile{rf})
				if err != nil {
					break
				}
				all = append(all, rs...)
			}
			if err == nil {
				e.judgeGroup(rep, items2(items, func(i int) jitem { return jitem{items[i].rf, items[i].a, items[i].t, &rep.Jobs[items[i].job]} }), all, &n)
				continue
			}
			rep.Note("replay %v: %v", k.c, err)
			continue
		}
		res, err := e.RunNative(k.c, k.cpu, false, rfs)
		if err != nil || len(res) != len(items) {
			rep.Note("native run %v: %v (%d of %d)", k.c, err, len(res), len(items))
			for _, it := range items {
				if it.a != nil {
					rep.Unreplayed = append(rep.Unreplayed, it.rf.Assert+": no native run: "+fmt.Sprint(err))
				}
			}
			continue
		}
		e.judgeGroup(rep, items2(items, func(i int) jitem { return jitem{items[i].rf, items[i].a, items[i].t, &rep.Jobs[items[i].job]} }), res, &n)
	}
}

type jitem struct {
	rf ReplayFile
	a  *AssertRes
	t  *Trace
	r  *JobRes
}

func items2[T any](xs []T, f func(int) jitem) (out []jitem) {
	for i := range xs {
		out = append(out, f(i))
	}
	return
}

func (e *Env) judgeGroup(rep *Report, items []jitem, res []NativeRes, n *int) {
	for i, it := range items {
		nr := res[i]
		real := func() {
			if id := it.unpredicted(nr); id != "" {
				job := it.r.Job
				again, err := e.RunNative(job.Cfg, cpuFor(job, it.rf.Inputs), false, []ReplayFile{it.rf})
				if err == nil && len(again) == 1 && it.unpredicted(again[0]) == id {
					rf := it.rf
					rf.Property, rf.Assert, rf.How, rf.Native = rep.Prop, id, "run of the real code", &again[0]
					rf.Config = job.Cfg.String() + "/cpu=" + job.CPU
					e.violation(rep, rf, n)
				}
			}
		}
		if it.a == nil && it.t == nil {
			rep.Probes++
			real()
			continue
		}
		if it.t != nil {
			rep.Traces++
			if d := it.t.differs(nr); d != "" {
				rep.TraceBad = append(rep.TraceBad, it.rf.Harness+fmt.Sprint(it.rf.Params)+": "+d)
				// the real code fails where the encoding says it does not: the
				// encoding is wrong there, and so is the code
				real()
			} else if len(rep.Samples) < 3 {
				rep.Samples = append(rep.Samples, map[string]any{"harness": it.rf.Harness, "params": it.rf.Params, "inputs": trimInputs(it.rf.Inputs), "outputs": it.t.Outs})
			}
			continue
		}
		ok := reproduces(it.a, nr)
		if !ok {
			rep.Unreplayed = append(rep.Unreplayed, fmt.Sprintf("%s in %s%v: counterexample does not replay (native: %v)", it.rf.Assert, it.rf.Harness, it.rf.Params, nr.Failed))
			continue
		}
		it.rf.Native = &nr
		e.violation(rep, it.rf, n)
	}
}

// unpredicted names an assertion of this property that the real code fails
// although the encoding does not.
func (it *jitem) unpredicted(nr NativeRes) string {
	if !nr.Assumed {
		return ""
	}
	for _, f := range nr.Failed {
		if (f == "hang" || strings.HasPrefix(f, "panic:")) && it.t == nil {
			return f
		}
		if f != "crash" && f != "hang" && !strings.HasPrefix(f, "panic:") && (it.t == nil || !it.t.Failed[f]) && it.r.Job.Counts(f) {
			return f
		}
	}
	return ""
}

func (e *Env) violation(rep *Report, rf ReplayFile, n *int) {
	dir := filepath.Join(e.Verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	*n++
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", rep.Prop, *n))
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, b, 0o644)
	rep.Violations = append(rep.Violations, Viol{rf.Assert, path, rf.Config})
}

func trimInputs(m map[string]uint64) map[string]uint64 {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	o := map[string]uint64{}
	for i, k := range ks {
		if i < 24 {
			o[k] = m[k]
		}
	}
	return o
}

// differs compares a predicted run with the real one.
func (t *Trace) differs(n NativeRes) string {
	want := map[string]bool{}
	for k := range t.Failed {
		want[k] = true
	}
	got := map[string]bool{}
	for _, f := range n.Failed {
		if strings.HasPrefix(f, "panic:") {
			f = "panic"
		}
		got[f] = true
	}
	if want["panic"] != got["panic"] {
		return fmt.Sprintf("panic predicted %v, real %v", want["panic"], n.Failed)
	}
	if want["panic"] {
		return ""
	}
	for k := range want {
		if !got[k] {
			return "predicted failure of " + k + " did not happen"
		}
	}
	for k := range got {
		if !want[k] {
			return "unpredicted failure of " + k
		}
	}
	for k, v := range t.Outs {
		if n.Outs[k] != v {
			return fmt.Sprintf("%s: predicted %.60s, real %.60s", k, v, n.Outs[k])
		}
	}
	return ""
}

func (e *Env) finish(rep *Report, plan *Plan, level string, t0 time.Time) int {
	// known findings suppress nothing unless listed
	known := e.knownFindings(rep.Prop)
	var fresh []Viol
	for _, v := range rep.Violations {
		hit := ""
		for _, k := range known {
			if strings.Contains(k, v.Assert) {
				hit = k
			}
		}
		if hit != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", rep.Prop, hit)
			continue
		}
		fresh = append(fresh, v)
	}
	funcs := map[string]bool{}
	var jl []string
	var steps, terms int64
	var cov, covHit []string
	for _, j := range rep.Jobs {
		for _, f := range j.Funcs {
			if !strings.Contains(f, "/zzverif.") {
				funcs[f] = true
			}
		}
		steps += j.Steps
		terms += int64(j.Terms)
		st := "ok"
		if j.Err != "" {
			st = "undecided"
		}
		jl = append(jl, fmt.Sprintf("%s %s %.1fs", j.Job.Name(), st, j.Time.Seconds()))
		for _, c := range j.Covers {
			if c.Verdict == "reached" {
				covHit = append(covHit, c.ID)
			}
			cov = append(cov, c.ID)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	sort.Strings(jl)
	if len(rep.Samples) == 0 {
		for _, j := range rep.Jobs {
			if len(rep.Samples) < 2 {
				rep.Samples = append(rep.Samples, map[string]any{"harness": j.Job.Harness, "params": j.Job.Params, "obligations": len(j.Asserts)})
			}
		}
	}
	st := e.Stats
	covr := map[string]any{
		"states": terms, "transitions": steps, "traces_validated_against_impl": rep.Traces - len(rep.TraceBad), "samples": rep.Samples,
		"explanation":       "states = distinct symbolic values built by executing the real code; transitions = instructions executed symbolically; traces = concrete runs whose outcome the encoding predicted and the compiled code confirmed",
		"obligations":       rep.Obl,
		"discharged":        rep.Dis,
		"functions_encoded": fl,
		"bounds":            plan.Bounds,
		"jobs":              jl,
		"queries":           st.Queries, "queries_unsat": st.Unsat, "queries_sat": st.Sat, "queries_unknown": st.Unknown, "queries_repeated": st.CacheHits,
		"proved_by_normalisation":  map[string]any{"obligations": rep.Syntactic, "explanation": "the assertion's negation normalised to false; every normalisation step taken on the way is itself put to the solver", "steps": e.Certs.Steps, "forms_unsat": e.Certs.Forms, "queries": e.Certs.Queries, "steps_not_confirmed": e.Certs.Open, "steps_refuted": e.Certs.Wrong, "solver_s": round(e.Certs.Time.Seconds())},
		"solver_s":                 round(st.Time.Seconds()),
		"reachability_witnesses":   len(covHit),
		"reachability_unwitnessed": len(cov) - len(covHit),
		"undecided":                rep.Undecided,
		"not_replayed":             rep.Unreplayed,
		"notes":                    rep.Notes,
		"trace_disagreements":      rep.TraceBad,
		"runs_where_undecided":     rep.Probes,
	}
	for k, v := range rep.Extra {
		covr[k] = v
	}
	ev := map[string]any{
		"property": rep.Prop, "tier": e.Tier, "seed": e.Seed, "level": level, "coverage": covr,
		"assumptions": []string{"x/tools go/ssa faithfully represents the source", "z3 is sound on the queries it answers unsat", "hash/cpu/std functions listed as intrinsics behave as documented"},
		"wall_s":      round(time.Since(t0).Seconds()), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(e.Verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(e.Verif, "evidence", rep.Prop+".json"), b, 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d traces agree, %d normaliser steps confirmed (%d not), %d queries, %.1fs solver, %.1fs wall\n", rep.Prop, rep.Obl, rep.Dis, len(rep.Undecided), rep.Traces-len(rep.TraceBad), e.Certs.Steps-e.Certs.Open-e.Certs.Wrong, e.Certs.Open+e.Certs.Wrong, st.Queries, st.Time.Seconds(), time.Since(t0).Seconds())
	for i, u := range rep.Undecided {
		if i == 8 {
			fmt.Printf("  ... %d more undecided\n", len(rep.Undecided)-i)
			break
		}
		fmt.Printf("  undecided: %.300s\n", u)
	}
	for _, u := range rep.Unreplayed {
		fmt.Printf("  not replayed: %.300s\n", u)
	}
	for _, u := range rep.TraceBad {
		fmt.Printf("  ENCODING MISMATCH: %.300s\n", u)
	}
	for _, u := range rep.Notes {
		fmt.Printf("  note: %.300s\n", u)
	}
	if len(fresh) > 0 {
		done := map[string]bool{}
		for _, v := range fresh {
			if !done[v.Assert] {
				done[v.Assert] = true
				fmt.Printf("VIOLATION property=%s replay=%s (%s, %s)\n", rep.Prop, v.Path, v.Assert, v.Note)
			}
		}
		return 1
	}
	if rep.Dis == 0 && rep.Probes > 0 {
		fmt.Printf("the solver decided nothing here; %d runs of the real code showed no violation\n", rep.Probes)
	} else if rep.Dis == 0 {
		fmt.Println("nothing could be decided")
		return 2
	}
	return 0
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }

// knownFindings lists the findings recorded for a property.
func (e *Env) knownFindings(prop string) (out []string) {
	b, err := os.ReadFile(filepath.Join(e.Verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return
}

// mib is the size of the long write that a run makes, in MiB.
func mib(harness string, p map[string]int) int {
	switch harness {
	case "hLong", "hCgoLong", "hCgoFeed":
		return p["len"]
	}
	return 0
}
