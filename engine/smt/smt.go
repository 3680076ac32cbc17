// Package smt prints term queries as SMT-LIB and runs them on a solver process.
package smt

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/engine/term"
)

// Query is a rendered conjunction.
type Query struct {
	Decls  string
	Leaves []*term.Term // declared constants, in order x0, x1, ...
	Nodes  int
}

func sort_(w uint8) string {
	if w == 1 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// Build renders the conjunction of roots. Terms in cut are free constants.
func Build(roots []*term.Term, cut func(*term.Term) bool) *Query {
	q := &Query{}
	var sb strings.Builder
	name := map[*term.Term]string{}
	ufs := map[string]bool{}
	var visit func(t *term.Term)
	nd := 0
	bv := func(t *term.Term) string { // as bit-vector
		if t.W == 1 {
			if t.IsConst() {
				return fmt.Sprintf("#b%d", t.A)
			}
			return "(ite " + name[t] + " #b1 #b0)"
		}
		return name[t]
	}
	leaf := func(t *term.Term) {
		n := "x" + strconv.Itoa(len(q.Leaves))
		q.Leaves = append(q.Leaves, t)
		name[t] = n
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", n, sort_(t.W))
	}
	visit = func(t *term.Term) {
		if _, ok := name[t]; ok {
			return
		}
		if t.Op == term.OConst {
			if t.W == 1 {
				name[t] = map[uint64]string{0: "false", 1: "true"}[t.A]
			} else if t.W%4 == 0 {
				name[t] = fmt.Sprintf("#x%0*x", t.W/4, t.A)
			} else {
				name[t] = fmt.Sprintf("#b%0*b", t.W, t.A)
			}
			return
		}
		if t.Op == term.OVar || cut != nil && cut(t) {
			leaf(t)
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		if t.Op == term.OUF {
			var as []string
			for _, a := range t.Args {
				as = append(as, sort_(a.W))
			}
			if !ufs[t.Name] {
				ufs[t.Name] = true
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", t.Name, strings.Join(as, " "), sort_(t.W))
			}
		}
		var e string
		list := func(op string, f func(*term.Term) string) string {
			var b strings.Builder
			b.WriteString("(" + op)
			for _, a := range t.Args {
				b.WriteByte(' ')
				b.WriteString(f(a))
			}
			b.WriteByte(')')
			return b.String()
		}
		nm := func(a *term.Term) string { return name[a] }
		pick := func(b, v string) string {
			if t.W == 1 {
				return b
			}
			return v
		}
		switch t.Op {
		case term.ONot:
			e = list(pick("not", "bvnot"), nm)
		case term.OAnd:
			e = list(pick("and", "bvand"), nm)
		case term.OOr:
			e = list(pick("or", "bvor"), nm)
		case term.OXor:
			e = list(pick("xor", "bvxor"), nm)
		case term.OAdd:
			var parts []string
			var neg []string
			for i, a := range t.Args {
				switch c := t.Coef[i]; {
				case c == 1:
					parts = append(parts, name[a])
				case c == term.Mask(t.W):
					neg = append(neg, name[a])
				default:
					parts = append(parts, fmt.Sprintf("(bvmul %s %s)", konst(t.W, c), name[a]))
				}
			}
			if t.A != 0 || len(parts) == 0 {
				parts = append(parts, konst(t.W, t.A))
			}
			e = parts[0]
			if len(parts) > 1 {
				e = "(bvadd " + strings.Join(parts, " ") + ")"
			}
			for _, n := range neg {
				e = "(bvsub " + e + " " + n + ")"
			}
		case term.OMul:
			e = list("bvmul", nm)
		case term.OUDiv:
			e = list("bvudiv", nm)
		case term.OURem:
			e = list("bvurem", nm)
		case term.OSDiv:
			e = list("bvsdiv", nm)
		case term.OSRem:
			e = list("bvsrem", nm)
		case term.OShl:
			e = list("bvshl", nm)
		case term.OLShr:
			e = list("bvlshr", nm)
		case term.OAShr:
			e = list("bvashr", nm)
		case term.ORotl:
			e = fmt.Sprintf("((_ rotate_left %d) %s)", t.A, name[t.Args[0]])
		case term.OConcat:
			e = list("concat", bv)
		case term.OExtract:
			e = fmt.Sprintf("((_ extract %d %d) %s)", t.A, t.B, name[t.Args[0]])
			if t.W == 1 {
				e = "(= " + e + " #b1)"
			}
		case term.OSExt:
			e = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.Args[0].W, bv(t.Args[0]))
		case term.OIte:
			e = list("ite", nm)
		case term.OEq:
			e = list("=", nm)
		case term.OUlt:
			e = list("bvult", nm)
		case term.OSlt:
			e = list("bvslt", nm)
		case term.OUF:
			e = list(t.Name, nm)
		default:
			panic("smt: operator")
		}
		n := "n" + strconv.Itoa(nd)
		nd++
		name[t] = n
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, sort_(t.W), e)
	}
	for _, r := range roots {
		visit(r)
		fmt.Fprintf(&sb, "(assert %s)\n", name[r])
	}
	q.Decls = sb.String()
	q.Nodes = nd
	return q
}

func konst(w uint8, v uint64) string {
	v &= term.Mask(w)
	if w == 1 {
		return map[uint64]string{0: "false", 1: "true"}[v]
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Stats are shared between solvers.
type Stats struct {
	sync.Mutex
	Queries, Sat, Unsat, Unknown, CacheHits int
	Time                                    time.Duration
}

// Cache maps canonical query text to a verdict (unsat only, or sat with model).
type Cache struct {
	sync.Mutex
	m map[[32]byte]cached
}
type cached struct {
	r     Result
	model []uint64
}

func NewCache() *Cache { return &Cache{m: map[[32]byte]cached{}} }

type Solver struct {
	Cmd   []string
	Stats *Stats
	Cache *Cache

	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	used int
}

func New(st *Stats, ca *Cache, cmd ...string) *Solver {
	return &Solver{Cmd: cmd, Stats: st, Cache: ca}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.Cmd[0], s.Cmd[1:]...)
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	s.used = 0
	return s.cmd.Start()
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction of roots with cut terms free.
// model gives values for q.Leaves when Sat.
func (s *Solver) Check(q *Query, timeout time.Duration, wantModel bool) (Result, []uint64) {
	key := sha256.Sum256([]byte(q.Decls))
	if s.Cache != nil {
		s.Cache.Lock()
		c, ok := s.Cache.m[key]
		s.Cache.Unlock()
		if ok && (c.r == Unsat || c.r == Sat && (!wantModel || c.model != nil)) {
			s.Stats.Lock()
			s.Stats.CacheHits++
			s.Stats.Unlock()
			return c.r, c.model
		}
	}
	t0 := time.Now()
	r, model := s.check(q, timeout, wantModel)
	dt := time.Since(t0)
	s.Stats.Lock()
	s.Stats.Queries++
	s.Stats.Time += dt
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	s.Stats.Unlock()
	if s.Cache != nil && r != Unknown {
		s.Cache.Lock()
		s.Cache.m[key] = cached{r, model}
		s.Cache.Unlock()
	}
	return r, model
}

func (s *Solver) check(q *Query, timeout time.Duration, wantModel bool) (Result, []uint64) {
	if s.cmd != nil && s.used > 2000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.used++
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	if strings.Contains(s.Cmd[0], "cvc5") {
		fmt.Fprintf(&sb, "(set-option :tlimit-per %d)\n(set-option :produce-models true)\n(set-logic QF_UFBV)\n", timeout.Milliseconds())
	} else {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeout.Milliseconds())
	}
	sb.WriteString(q.Decls)
	sb.WriteString("(check-sat)\n(echo \"--done\")\n")
	cmd := s.cmd
	watchdog := time.AfterFunc(timeout+10*time.Second, func() { cmd.Process.Kill() })
	defer watchdog.Stop()
	go func(in io.WriteCloser, str string) { io.WriteString(in, str) }(s.in, sb.String())
	res := Unknown
	bad := false
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return Unknown, nil
		}
		line = strings.TrimSpace(line)
		if strings.Trim(line, "\"") == "--done" {
			break
		}
		switch {
		case line == "sat":
			res = Sat
		case line == "unsat":
			res = Unsat
		case strings.HasPrefix(line, "(error"):
			bad = true
		}
	}
	if bad {
		return Unknown, nil
	}
	if res != Sat || !wantModel || len(q.Leaves) == 0 {
		if res == Sat && len(q.Leaves) == 0 {
			return res, []uint64{}
		}
		return res, nil
	}
	var gv strings.Builder
	gv.WriteString("(get-value (")
	for i := range q.Leaves {
		fmt.Fprintf(&gv, "x%d ", i)
	}
	gv.WriteString("))\n(echo \"--done\")\n")
	go func(in io.WriteCloser, str string) { io.WriteString(in, str) }(s.in, gv.String())
	var txt strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return Unknown, nil
		}
		if strings.Trim(strings.TrimSpace(line), "\"") == "--done" {
			break
		}
		txt.WriteString(line)
	}
	model := make([]uint64, len(q.Leaves))
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt.String()))
	for i := 0; i+1 < len(toks); i += 2 {
		if toks[i] == "_" { // unexpected shape
			return Unknown, nil
		}
		idx, err := strconv.Atoi(strings.TrimPrefix(toks[i], "x"))
		if err != nil || idx >= len(model) {
			return Unknown, nil
		}
		v := toks[i+1]
		switch {
		case v == "true":
			model[idx] = 1
		case v == "false":
			model[idx] = 0
		case strings.HasPrefix(v, "#x"):
			model[idx], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			model[idx], _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			return Unknown, nil
		}
	}
	return Sat, model
}
