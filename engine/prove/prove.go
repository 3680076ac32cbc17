// Package prove decides obligations over terms: it merges nodes that local
// solver queries prove equal (bottom-up, candidates found by simulation) and
// then discharges the remaining goal with increasingly precise queries.
package prove

import (
	"fmt"
	"os"
	"strings"
	"time"

	"verif/engine/smt"
	"verif/engine/term"
	"verif/engine/vm"
)

type P struct {
	C    *term.Ctx
	S    *smt.Solver
	Seed uint64

	K   int
	rep map[*term.Term]*term.Term
	sim map[*term.Term][]uint64
	sig map[sigKey][]*term.Term
	bad map[[2]int32]bool
	// subst holds proven equivalences of conditions.
	subst map[*term.Term]*term.Term

	// LocalTimeout and FullTimeout bound single queries.
	LocalTimeout, FullTimeout time.Duration
	Deadline                  time.Time
	Cancel                    func() bool

	// Seeds are directed simulation vectors, after the NRand random ones.
	Seeds []map[string]uint64
	NRand int

	deepFail                  int // consecutive failures of the deepest local query
	Merged, LocalQ, LocalFail int
	Verbose                   bool
}

type sigKey struct {
	w uint8
	h uint64
}

func New(c *term.Ctx, s *smt.Solver, seed uint64) *P {
	return &P{C: c, S: s, Seed: seed, K: 8, NRand: 8, rep: map[*term.Term]*term.Term{}, sim: map[*term.Term][]uint64{}, sig: map[sigKey][]*term.Term{}, bad: map[[2]int32]bool{}, subst: map[*term.Term]*term.Term{},
		LocalTimeout: 3 * time.Second, FullTimeout: 60 * time.Second}
}

// AddSeeds appends directed simulation vectors; call before any simulation.
func (p *P) AddSeeds(s []map[string]uint64) {
	p.Seeds = append(p.Seeds, s...)
	p.K = p.NRand + len(p.Seeds)
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// RandVal is the value of a variable in simulation vector k.
func (p *P) RandVal(name string, k int) uint64 {
	h := p.Seed*0x9e3779b97f4a7c15 + uint64(k)*0x2545f4914f6cdd1d
	for i := 0; i < len(name); i++ {
		h = splitmix(h ^ uint64(name[i]))
	}
	return splitmix(h)
}

func (p *P) VarVal(t *term.Term, k int) uint64 {
	if k >= p.NRand {
		if v, ok := p.Seeds[k-p.NRand][t.Name]; ok {
			return v & term.Mask(t.W)
		}
	}
	return p.RandVal(t.Name, k) & term.Mask(t.W)
}

// Sim returns the K simulated values of t.
func (p *P) Sim(t *term.Term) []uint64 {
	if v, ok := p.sim[t]; ok {
		return v
	}
	stack := []*term.Term{t}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		if _, ok := p.sim[n]; ok {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range n.Args {
			if _, ok := p.sim[a]; !ok {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		v := make([]uint64, p.K)
		for k := range v {
			if n.Op == term.OVar {
				v[k] = p.VarVal(n, k)
			} else {
				v[k] = p.C.EvalNode(n, func(a *term.Term) uint64 { return p.sim[a][k] })
			}
		}
		p.sim[n] = v
	}
	return p.sim[t]
}

func (p *P) key(t *term.Term) sigKey {
	h := uint64(t.W)
	for _, v := range p.Sim(t) {
		h = splitmix(h ^ v)
	}
	return sigKey{t.W, h}
}

func (p *P) expired() bool {
	return !p.Deadline.IsZero() && time.Now().After(p.Deadline) || p.Cancel != nil && p.Cancel()
}

// Simplify returns a term equal to t with proven-equal subterms merged.
func (p *P) Simplify(t *term.Term) *term.Term { return p.simplify(t, 0) }

func (p *P) simplify(root *term.Term, lvl int) *term.Term {
	if r, ok := p.rep[root]; ok {
		return r
	}
	cone := term.Cone([]*term.Term{root}, func(t *term.Term) bool { _, ok := p.rep[t]; return ok })
	for _, t := range cone {
		if _, ok := p.rep[t]; ok {
			continue
		}
		n := t
		if len(t.Args) > 0 {
			args := make([]*term.Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = p.rep[a]
			}
			n = p.C.Rebuild(t, args)
		}
		if q, ok := p.subst[n]; ok {
			p.rep[t] = q
			continue
		}
		if n != t && lvl < 4 {
			n = p.simplify(n, lvl+1)
			p.rep[t] = n
			continue
		}
		p.rep[t] = p.merge(n)
	}
	return p.rep[root]
}

// merge finds an earlier representative proven equal to n.
func (p *P) merge(n *term.Term) *term.Term {
	if n.Op == term.OConst || n.W == 1 {
		return n
	}
	sims := p.Sim(n)
	if n.Op != term.OVar && fewValues(sims) {
		return n
	}
	k := p.key(n)
	tried := 0
	if n.Op != term.OVar && !p.expired() {
		for _, c := range p.sig[k] {
			if c == n {
				return n
			}
			if p.bad[[2]int32{c.ID, n.ID}] || tried >= 3 {
				continue
			}
			if !sameVals(p.Sim(c), sims) {
				continue
			}
			tried++
			if p.equal(c, n) {
				p.Merged++
				return c
			}
			p.bad[[2]int32{c.ID, n.ID}] = true
		}
	}
	p.sig[k] = append(p.sig[k], n)
	return n
}

// fewValues: too little information in the signature to suggest an equality.
func fewValues(v []uint64) bool {
	n := 0
	for i, x := range v {
		dup := false
		for _, y := range v[:i] {
			if x == y {
				dup = true
				break
			}
		}
		if !dup {
			n++
		}
	}
	return 4*n < 3*len(v)
}

func sameVals(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// depthCut gives a cut at distance d from the root; never cuts the root.
func depthCut(root *term.Term, d int) (func(*term.Term) bool, bool) {
	dist := map[*term.Term]int{root: 0}
	q := []*term.Term{root}
	cutAny := false
	for len(q) > 0 {
		t := q[0]
		q = q[1:]
		if dist[t] >= d {
			if len(t.Args) > 0 {
				cutAny = true
			}
			continue
		}
		for _, a := range t.Args {
			if _, ok := dist[a]; !ok {
				dist[a] = dist[t] + 1
				q = append(q, a)
			}
		}
	}
	return func(t *term.Term) bool { x, ok := dist[t]; return ok && x >= d && len(t.Args) > 0 }, cutAny
}

func logical(t *term.Term) bool {
	return t.Op == term.OIte || t.Op == term.OAnd || t.Op == term.OOr
}

func (p *P) equal(a, b *term.Term) bool {
	e := p.C.Eq(a, b)
	if e.IsTrue() {
		return true
	}
	if e.IsFalse() {
		return false
	}
	g := p.C.Not(e)
	to := p.LocalTimeout
	for _, d := range []int{3, 5, 9} {
		cut, any := depthCut(g, d)
		if d == 9 {
			if logical(a) || logical(b) {
				break
			}
			to = p.LocalTimeout / 2 >> p.deepFail
		}
		p.LocalQ++
		t0 := time.Now()
		r, _ := p.S.Check(smt.Build([]*term.Term{g}, cut), to, false)
		if dt := time.Since(t0); p.Verbose && dt > 500*time.Millisecond {
			fmt.Fprintf(os.Stderr, "  SLOW %.1f d=%d %v %.300s\n    %.300s\n", dt.Seconds(), d, r, a, b)
		}
		if r == smt.Unsat {
			if d == 9 {
				p.deepFail = 0
			}
			return true
		}
		if d == 9 && p.deepFail < 4 {
			p.deepFail++
		}
		if r == smt.Sat && !any {
			break
		}
		if r == smt.Unknown {
			break
		}
	}
	p.LocalFail++
	if p.Verbose && p.LocalFail < 8 {
		fmt.Fprintf(os.Stderr, "  FAIL %d %.300s\n    %d %.300s\n", a.ID, a, b.ID, b)
	}
	return false
}

// Result of a goal.
type Result struct {
	Verdict smt.Result // Unsat: holds
	How     string
	Env     map[string]uint64 // candidate counterexample (variables), Sat only
}

// arithLeaf cuts at word-level nodes that bit-level reasoning need not open.
func arithLeaf(t *term.Term) bool {
	if t.W <= 1 {
		return false
	}
	switch t.Op {
	case term.OAdd:
		return t.W >= 32 && len(t.Args) > 1
	case term.ORotl, term.OMul, term.OUF:
		return true
	}
	return false
}

// Prove decides whether pc implies cond.
func (p *P) Prove(pc []*term.Term, cond *term.Term) Result {
	goal := []*term.Term{p.C.Not(cond)}
	goal = append(goal, pc...)
	return p.Refute(goal)
}

// lemma records that the two sides of a refuted disequivalence are equal.
func (p *P) lemma(g *term.Term) {
	if g.Op != term.OXor || g.W != 1 || len(g.Args) != 2 || g.A != 0 {
		return
	}
	a, b := g.Args[0], g.Args[1]
	if a.ID < b.ID {
		a, b = b, a
	}
	p.subst[a] = b
	p.subst[p.C.Not(a)] = p.C.Not(b)
	for k, v := range p.subst {
		if v == a {
			p.subst[k] = b
		} else if v == p.C.Not(a) {
			p.subst[k] = p.C.Not(b)
		}
	}
	p.rep = map[*term.Term]*term.Term{}
}

// Refute decides whether the conjunction is unsatisfiable.
func (p *P) Refute(goal []*term.Term) Result {
	C := p.C
	g := C.And(goal...)
	return p.refute(g)
}

func (p *P) refute(g *term.Term) (res Result) {
	if g.IsFalse() {
		return Result{Verdict: smt.Unsat, How: "syntactic"}
	}
	// simulation first: a random counterexample
	if env := p.simCex(g); env != nil {
		return Result{Verdict: smt.Sat, How: "simulation", Env: env}
	}
	if p.expired() {
		return Result{Verdict: smt.Unknown, How: "time"}
	}
	// cheap attempt without sweeping when the cone is small
	if len(term.Cone([]*term.Term{g}, nil)) < 400 {
		r, m := p.Full(g, 10*time.Second)
		if r != smt.Unknown {
			return Result{Verdict: r, How: "direct", Env: m}
		}
	}
	if r, ok := p.split(g, 0); ok {
		return r
	}
	t0 := time.Now()
	g = p.Simplify(g)
	defer func() {
		if res.Verdict == smt.Unsat {
			p.lemma(g)
		}
	}()
	if p.Verbose {
		fmt.Fprintf(os.Stderr, "  sweep %.1fs merged %d localq %d fail %d\n", time.Since(t0).Seconds(), p.Merged, p.LocalQ, p.LocalFail)
	}
	if g.IsFalse() {
		return Result{Verdict: smt.Unsat, How: "sweep"}
	}
	if p.Verbose {
		Dump(g)
		p.DumpDup(g)
	}
	try := func(how string, cut func(*term.Term) bool, to time.Duration) bool {
		if p.expired() {
			return false
		}
		r, _ := p.S.Check(smt.Build([]*term.Term{g}, cut), to, false)
		if p.Verbose {
			fmt.Fprintln(os.Stderr, "  goal", how, r)
		}
		return r == smt.Unsat
	}
	if try("words", func(t *term.Term) bool { return t.W > 1 }, 5*time.Second) {
		return Result{Verdict: smt.Unsat, How: "cut:words"}
	}
	if try("arith", arithLeaf, 20*time.Second) {
		return Result{Verdict: smt.Unsat, How: "cut:arith"}
	}
	if env := p.abstract(g); env != nil {
		return Result{Verdict: smt.Sat, How: "abstract", Env: env}
	}
	if env := p.guided(g); env != nil {
		return Result{Verdict: smt.Sat, How: "guided", Env: env}
	}
	for _, d := range []int{6, 12, 20} {
		cut, any := depthCut(g, d)
		if !any {
			break
		}
		if try(fmt.Sprint("depth", d), cut, 10*time.Second) {
			return Result{Verdict: smt.Unsat, How: fmt.Sprint("cut:depth", d)}
		}
	}
	if p.expired() {
		return Result{Verdict: smt.Unknown, How: "time"}
	}
	r, m := p.Full(g, p.FullTimeout)
	return Result{Verdict: r, How: "full", Env: m}
}

// group names the family of an input: its name without the index.
func group(name string) string { return strings.TrimRight(name, "0123456789.") }

// guided looks for a model near a simulation vector: one family of inputs
// stays free, all others take their simulated values.
func (p *P) guided(g *term.Term) map[string]uint64 {
	end := time.Now().Add(40 * time.Second)
	cone := term.Cone([]*term.Term{g}, nil)
	var groups []string
	seen := map[string]bool{}
	var vars []*term.Term
	for _, t := range cone {
		if t.Op == term.OVar {
			vars = append(vars, t)
			if k := group(t.Name); !seen[k] {
				seen[k] = true
				groups = append(groups, k)
			}
		}
	}
	if len(groups) < 2 || len(groups) > 12 {
		return nil
	}
	var ks []int
	for k := p.NRand; k < p.K && len(ks) < 40; k++ {
		ks = append(ks, k)
	}
	ks = append(ks, 0, 1)
	for _, k := range ks {
		if time.Now().After(end) || p.expired() {
			return nil
		}
		if env := p.near(g, cone, vars, groups, func(t *term.Term) uint64 { return p.VarVal(t, k) }, end); env != nil {
			return env
		}
	}
	return nil
}

// near frees one family of inputs at a time.
func (p *P) near(g *term.Term, cone, vars []*term.Term, groups []string, val func(*term.Term) uint64, end time.Time) map[string]uint64 {
	for _, fr := range groups {
		if time.Now().After(end) || p.expired() {
			return nil
		}
		memo := map[*term.Term]*term.Term{}
		for _, t := range cone {
			switch {
			case t.Op == term.OVar:
				memo[t] = t
				if group(t.Name) != fr {
					memo[t] = p.C.Const(t.W, val(t))
				}
			case len(t.Args) == 0:
				memo[t] = t
			default:
				args := make([]*term.Term, len(t.Args))
				for i, a := range t.Args {
					args[i] = memo[a]
				}
				memo[t] = p.C.Rebuild(t, args)
			}
		}
		r := memo[g]
		if p.Verbose {
			fmt.Fprintln(os.Stderr, "  near", fr, coneSize(r), r.IsTrue(), r.IsFalse())
		}
		if r.IsFalse() || coneSize(r) > 3000 {
			continue
		}
		res, env := p.Full(r, 3*time.Second)
		if res == smt.Sat || r.IsTrue() {
			if env == nil {
				env = map[string]uint64{}
			}
			for _, v := range vars {
				if group(v.Name) != fr {
					env[v.Name] = val(v)
				}
			}
			return env
		}
	}
	return nil
}

// abstract looks for a model near one of the goal with its sums taken as free:
// it meets the linear conditions, and one family of inputs makes up for the
// rest.
func (p *P) abstract(g *term.Term) map[string]uint64 {
	cone := term.Cone([]*term.Term{g}, nil)
	var groups []string
	seen := map[string]bool{}
	var vars []*term.Term
	for _, t := range cone {
		if t.Op == term.OVar {
			vars = append(vars, t)
			if k := group(t.Name); !seen[k] {
				seen[k] = true
				groups = append(groups, k)
			}
		}
	}
	if len(groups) < 2 || len(groups) > 12 || p.expired() {
		return nil
	}
	q := smt.Build([]*term.Term{g}, func(t *term.Term) bool {
		return t.Op == term.OUF || t.W >= 32 && len(t.Args) > 1 && (t.Op == term.OAdd || t.Op == term.OMul)
	})
	r, model := p.S.Check(q, 30*time.Second, true)
	if p.Verbose {
		fmt.Fprintln(os.Stderr, "  abstract", r)
	}
	if r != smt.Sat {
		return nil
	}
	env := map[*term.Term]uint64{}
	for i, l := range q.Leaves {
		if l.Op == term.OVar {
			env[l] = model[i]
		}
	}
	return p.near(g, cone, vars, groups, func(t *term.Term) uint64 {
		if v, ok := env[t]; ok {
			return v
		}
		return p.VarVal(t, 0)
	}, time.Now().Add(20*time.Second))
}

func conjuncts(g *term.Term) []*term.Term {
	if g.Op == term.OAnd {
		return g.Args
	}
	return []*term.Term{g}
}

func coneSize(t *term.Term) int { return len(term.Cone([]*term.Term{t}, nil)) }

// split looks for a part of a large conjunction that is refutable on its own:
// it splits a conjunct with few alternatives into cases, and in each case
// keeps the small conjuncts and one large one that no simulation vector
// satisfies together with them.
func (p *P) split(g *term.Term, lvl int) (Result, bool) {
	cs := conjuncts(g)
	if len(cs) == 1 || lvl > 2 {
		return Result{}, false
	}
	var small, big []*term.Term
	for _, c := range cs {
		if coneSize(c) < 1500 {
			small = append(small, c)
		} else {
			big = append(big, c)
		}
	}
	if len(small) == 0 || len(big) == 0 {
		return Result{}, false
	}
	ctx := p.C.And(small...)
	hit := false
	for _, v := range p.Sim(ctx) {
		hit = hit || v == 1
	}
	if !hit {
		return Result{}, false
	}
	if len(big) > 1 {
		n := 0
		for _, d := range big {
			free := true
			sd := p.Sim(d)
			for k, v := range p.Sim(ctx) {
				if v == 1 && sd[k] == 1 {
					free = false
					break
				}
			}
			if !free {
				continue
			}
			if n++; n > 2 {
				break
			}
			if p.Verbose {
				fmt.Fprintf(os.Stderr, "  part %d of %d, cone %d\n", n, len(big), coneSize(d))
			}
			if r := p.refute(p.C.And(ctx, d)); r.Verdict == smt.Unsat {
				r.How = "part:" + r.How
				return r, true
			}
		}
		return Result{}, false
	}
	d := big[0]
	if d.Op != term.OOr || len(d.Args) > 3 {
		return Result{}, false
	}
	how := ""
	for _, a := range d.Args {
		h := p.C.And(ctx, a)
		if h.IsFalse() {
			continue
		}
		r, ok := p.split(h, lvl+1)
		if !ok {
			r = p.refute(h)
		}
		if r.Verdict != smt.Unsat {
			return r, r.Verdict == smt.Sat
		}
		how = r.How
	}
	return Result{Verdict: smt.Unsat, How: "cases:" + how}, true
}

func (p *P) Full(g *term.Term, to time.Duration) (smt.Result, map[string]uint64) {
	q := smt.Build([]*term.Term{g}, nil)
	r, model := p.S.Check(q, to, true)
	if r != smt.Sat {
		return r, nil
	}
	env := map[string]uint64{}
	for i, l := range q.Leaves {
		env[l.Name] = model[i]
	}
	return r, env
}

func (p *P) simCex(g *term.Term) map[string]uint64 {
	for k, v := range p.Sim(g) {
		if v == 1 {
			return p.EnvOf(g, k)
		}
	}
	return nil
}

// EnvOf lists the variable values of simulation vector k in the cone of g.
func (p *P) EnvOf(g *term.Term, k int) map[string]uint64 {
	env := map[string]uint64{}
	for _, t := range term.Cone([]*term.Term{g}, nil) {
		if t.Op == term.OVar {
			env[t.Name] = p.VarVal(t, k)
		}
	}
	return env
}

// Oracle adapts P to the symbolic machine.
type Oracle struct {
	P       *P
	Queries int
}

var _ vm.Oracle = (*Oracle)(nil)

func (o *Oracle) Feasible(conj []*term.Term) bool {
	g := o.P.C.And(conj...)
	if g.IsFalse() {
		return false
	}
	for _, v := range o.P.Sim(g) {
		if v == 1 {
			return true
		}
	}
	o.Queries++
	for _, cut := range []func(*term.Term) bool{func(t *term.Term) bool { return t.W > 1 && arithLeaf(t) }, nil} {
		r, _ := o.P.S.Check(smt.Build([]*term.Term{g}, cut), 5*time.Second, false)
		if r == smt.Unsat {
			return false
		}
	}
	return true
}

func (o *Oracle) Values(conj []*term.Term, t *term.Term, max int) ([]uint64, bool) {
	var vals []uint64
	C := o.P.C
	seen := map[uint64]bool{}
	base := append([]*term.Term{}, conj...)
	// enumerate with the solver, blocking found values
	for {
		g := append([]*term.Term{}, base...)
		for _, v := range vals {
			g = append(g, C.Not(C.Eq(t, C.Const(t.W, v))))
		}
		o.Queries++
		// name the value: q = t
		q := smt.Build(append(g, C.Eq(C.Var(fmt.Sprint("val!", t.W), t.W), t)), nil)
		r, m := o.P.S.Check(q, 20*time.Second, true)
		if r == smt.Unsat {
			return vals, true
		}
		if r == smt.Unknown || m == nil {
			return nil, false
		}
		var v uint64
		for i, l := range q.Leaves {
			if strings.HasPrefix(l.Name, "val!") {
				v = m[i]
			}
		}
		if seen[v] {
			return nil, false
		}
		seen[v] = true
		vals = append(vals, v)
		if len(vals) > max {
			return nil, false
		}
	}
}
