package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"

	"verif/engine/drive"
	"verif/engine/smt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifeng check Cxx | job name k=v...")
		os.Exit(2)
	}
	// the solvers need the rest of the machine's memory
	debug.SetMemoryLimit(12 << 30)
	repo, verif := os.Getenv("VERIF_REPO"), os.Getenv("VERIF_DIR")
	if repo == "" {
		repo = "/repo"
	}
	if verif == "" {
		verif = "/verif"
	}
	e := drive.NewEnv(repo, verif)
	defer e.Close()
	e.Seed = 1
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 32); err == nil {
		e.Seed = s
	}
	e.Tier = os.Getenv("VERIF_TIER")
	if e.Tier != "thorough" {
		e.Tier = "quick"
	}
	e.SetupGoEnv()
	if err := e.LoadOverlay(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		for i, a := range os.Args {
			if a == "--tier" && i+1 < len(os.Args) {
				e.Tier = os.Args[i+1]
			}
		}
		rc := e.Check(os.Args[2], "model_checking")
		e.Close()
		os.Exit(rc)
	case "job":
		e.Verbose = os.Getenv("V") != ""
		s := smt.New(e.Stats, e.Cache, "z3-new", "-in", "memory_max_size=2000")
		job := drive.Job{Harness: os.Args[2], Params: map[string]int{}, Cfg: drive.Cfg{Arch: "amd64", Tags: "noasm"}, CPU: "off"}
		for _, a := range os.Args[3:] {
			k, v, _ := strings.Cut(a, "=")
			switch k {
			case "arch":
				job.Cfg.Arch = v
			case "tags":
				job.Cfg.Tags = v
			case "cpu":
				job.CPU = v
			case "hook":
				job.Cfg.Hook = true
			case "cflags":
				job.Cfg.CFlags = v
			case "abs":
				job.Abs, _ = strconv.Atoi(v)
			case "cgo":
				job.Cfg.Cgo = true
			case "seeds":
				job.Seeds = drive.NamedSeeds(v)
			default:
				n, _ := strconv.Atoi(v)
				job.Params[k] = n
			}
		}
		r := e.RunJob(job, s)
		fmt.Printf("%s err=%q exec=%.1fs total=%.1fs terms=%d merged=%d localq=%d\n", job.Name(), r.Err, r.ExecTime.Seconds(), r.Time.Seconds(), r.Terms, r.Merged, r.LocalQ)
		for _, a := range r.Asserts {
			fmt.Printf("  %-8s %-9s %-12s %s %s\n", a.Kind, a.Verdict, a.How, a.ID, a.Pos)
		}
		for _, a := range r.Covers {
			fmt.Printf("  %-8s %-9s %-12s %s %s\n", a.Kind, a.Verdict, a.How, a.ID, a.Pos)
		}
		fmt.Printf("steps=%d forms=%d queries=%d open=%d wrong=%d %.1fs %s\n", e.Certs.Steps, e.Certs.Forms, e.Certs.Queries, e.Certs.Open, e.Certs.Wrong, e.Certs.Time.Seconds(), e.Certs.Sample)
		fmt.Printf("%+v\n", struct {
			Q, Sat, Unsat, Unk, Hits int
			T                        float64
		}{e.Stats.Queries, e.Stats.Sat, e.Stats.Unsat, e.Stats.Unknown, e.Stats.CacheHits, e.Stats.Time.Seconds()})
	}
}
