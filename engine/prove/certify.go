package prove

import (
	"fmt"
	"os"
	"sync"
	"time"

	"verif/engine/smt"
	"verif/engine/term"
)

// Certs puts the normaliser's steps to the solver: for every recorded step,
// that the node as written and the node it was replaced by are equal for all
// values. What lies deeper than a step looked at becomes a free variable, so
// steps of the same form share one query; a form that does not hold with the
// deeper parts free is asked again with more of them.
type Certs struct {
	mu      sync.Mutex
	forms   map[[2]uint64]smt.Result // Unsat: confirmed; Sat: more is needed
	Steps   int                      // distinct steps
	Forms   int                      // distinct queries that were answered unsat
	Queries int
	Open    int // steps the solver did not confirm in the time given
	Wrong   int // steps the solver refuted
	Time    time.Duration
	Sample  string
}

func NewCerts() *Certs { return &Certs{forms: map[[2]uint64]smt.Result{}} }

// CertVerbose reports progress.
var CertVerbose = os.Getenv("CERTV") != ""

// how much of a step a query shows: levels of the node, of the result and of
// the steps used (0: these are left out; all 0: only the wiring)
var certDepths = [][3]int{{2, 1, 1}, {1, 1, 0}, {0, 0, 0}, {3, 0, 0}, {2, 2, 0}, {2, 2, 1}, {2, 2, 2}, {3, 2, 2}, {3, 3, 0}, {3, 3, 3}, {5, 5, 0}, {5, 5, 5}, {9, 9, 9}, {17, 17, 17}, {1 << 20, 1 << 20, 1 << 20}}

// near adds the nodes within d levels of the roots, by fewest levels.
func near(in map[*term.Term]bool, d int, roots ...*term.Term) {
	seen := map[*term.Term]bool{}
	level := roots
	for i := 0; i < d && len(level) > 0 && len(in) < 20000; i++ {
		var next []*term.Term
		for _, t := range level {
			if !seen[t] {
				seen[t], in[t] = true, true
				next = append(next, t.Args...)
			}
		}
		level = next
	}
}

// wires adds the roots and what only moves bits about below them.
func wires(in map[*term.Term]bool, roots ...*term.Term) {
	var visit func(t *term.Term, top bool)
	visit = func(t *term.Term, top bool) {
		switch t.Op {
		case term.OExtract, term.OConcat, term.ORotl, term.ONot, term.OConst, term.OSExt:
		default:
			if !top {
				return
			}
		}
		if in[t] {
			return
		}
		in[t] = true
		for _, a := range t.Args {
			visit(a, false)
		}
	}
	for _, r := range roots {
		visit(r, true)
	}
}

// stepQuery asks for values at which a step is wrong although the steps it
// used are right (those are confirmed by themselves).
func stepQuery(all []term.Step, s term.Step, d [3]int) (*smt.Query, bool) {
	var given []smt.Pair
	var used []*term.Term
	if d[2] > 0 {
		for _, i := range s.Used {
			u := all[i]
			used = append(used, u.Raw)
			given = append(given, smt.Pair{A: u.Raw, B: u.Res})
		}
	}
	in := map[*term.Term]bool{}
	if d[0] == 0 {
		wires(in, s.Raw, s.Res)
	}
	near(in, d[0], s.Raw)
	near(in, d[1], s.Res)
	near(in, d[2], used...)
	whole := true
	q := smt.BuildBV(given, smt.Pair{A: s.Raw, B: s.Res}, func(t *term.Term) bool {
		if in[t] {
			return false
		}
		whole = false
		return true
	})
	return q, whole
}

// former fingerprints what a query would say, without writing it.
type former struct {
	in, ep, sn []uint32
	idx        []int32
	epoch, seq uint32
	n          int32
	h          [2]uint64
	level      []*term.Term
	next       []*term.Term
}

func (f *former) mix(x uint64) {
	f.h[0] = (f.h[0] ^ x) * 0x9E3779B97F4A7C15
	f.h[0] ^= f.h[0] >> 29
	f.h[1] = (f.h[1] + x) * 0xC2B2AE3D27D4EB4F
	f.h[1] ^= f.h[1] >> 31
}

// near marks the nodes within d levels below the (raw) root's arguments.
func (f *former) near(d int, args ...*term.Term) {
	f.seq++
	f.level = append(f.level[:0], args...)
	for i := 0; i < d && len(f.level) > 0; i++ {
		f.next = f.next[:0]
		for _, t := range f.level {
			if f.sn[t.ID] == f.seq {
				continue
			}
			f.sn[t.ID] = f.seq
			f.in[t.ID] = f.epoch
			f.next = append(f.next, t.Args...)
		}
		f.level, f.next = f.next, f.level
	}
}

func (f *former) wires(t *term.Term) {
	switch t.Op {
	case term.OExtract, term.OConcat, term.ORotl, term.ONot, term.OConst, term.OSExt:
	default:
		return
	}
	if f.in[t.ID] == f.epoch {
		return
	}
	f.in[t.ID] = f.epoch
	for _, a := range t.Args {
		f.wires(a)
	}
}

func (f *former) node(t *term.Term) {
	f.mix(uint64(t.Op)<<8 | uint64(t.W))
	f.mix(t.A)
	f.mix(t.B + 0x51)
	f.mix(uint64(len(t.Args)))
	for i, a := range t.Args {
		f.ref(a)
		if len(t.Coef) > 0 {
			f.mix(t.Coef[i] & term.Mask(t.W))
		}
	}
}

func (f *former) ref(t *term.Term) {
	if t.Op == term.OConst {
		f.mix(uint64(t.W) + 0x1000)
		f.mix(t.A)
		return
	}
	f.mix(uint64(f.idx[t.ID]) + 0x2000)
}

func (f *former) visit(t *term.Term) {
	if t.Op == term.OConst || f.ep[t.ID] == f.epoch {
		return
	}
	f.ep[t.ID] = f.epoch
	if t.Op == term.OVar || t.Op == term.OUF || f.in[t.ID] != f.epoch {
		f.idx[t.ID] = f.n
		f.n++
		f.mix(uint64(t.W) + 0x3000)
		return
	}
	for _, a := range t.Args {
		f.visit(a)
	}
	f.node(t)
	f.idx[t.ID] = f.n
	f.n++
}

func (f *former) raw(t *term.Term) {
	for _, a := range t.Args {
		f.visit(a)
	}
	f.mix(0x4000)
	f.node(t)
}

// form fingerprints the query of a step at levels d.
func (f *former) form(all []term.Step, s *term.Step, d [3]int) [2]uint64 {
	f.epoch++
	f.n = 0
	f.h = [2]uint64{uint64(d[0])<<16 | uint64(d[1])<<8 | uint64(d[2]), 77}
	if d[0] == 0 {
		f.in[s.Res.ID] = f.epoch
		for _, a := range s.Res.Args {
			f.wires(a)
		}
		for _, a := range s.Raw.Args {
			f.wires(a)
		}
	}
	f.near(d[0]-1, s.Raw.Args...)
	f.near(d[1], s.Res)
	if d[2] > 0 {
		for _, i := range s.Used {
			f.near(d[2]-1, all[i].Raw.Args...)
		}
		for _, i := range s.Used {
			f.raw(all[i].Raw)
			f.visit(all[i].Res)
			f.ref(all[i].Res)
		}
	}
	f.raw(s.Raw)
	f.visit(s.Res)
	f.ref(s.Res)
	return f.h
}

// Run confirms the steps and returns how many it could not.
func (c *Certs) Run(steps []term.Step, terms int, s *smt.Solver, cancel func() bool, deadline time.Time) (open, wrong int) {
	t0 := time.Now()
	queries, forms := 0, 0
	f := &former{in: make([]uint32, terms), ep: make([]uint32, terms), sn: make([]uint32, terms), idx: make([]int32, terms)}
	pending := make([]int32, len(steps))
	for i := range pending {
		pending[i] = int32(i)
	}
	type item struct {
		key   [2]uint64
		q     *smt.Query
		whole bool
		steps []int32
	}
	for di, d := range certDepths {
		if len(pending) == 0 {
			break
		}
		last := di == len(certDepths)-1
		var items []*item
		group := map[[2]uint64]*item{}
		for _, i := range pending {
			h := f.form(steps, &steps[i], d)
			it := group[h]
			if it == nil {
				it = &item{key: h}
				group[h] = it
				items = append(items, it)
			}
			it.steps = append(it.steps, i)
		}
		n := len(pending)
		pending = nil
		var ask []*item
		c.mu.Lock()
		for _, it := range items {
			switch c.forms[it.key] {
			case smt.Unsat:
			case smt.Sat: // not with this little
				pending = append(pending, it.steps...)
			default:
				ask = append(ask, it)
			}
		}
		c.mu.Unlock()
		if CertVerbose {
			fmt.Fprintf(os.Stderr, "STAGE %v: %d steps, %d forms, %d new, %.1fs\n", d, n, len(items), len(ask), time.Since(t0).Seconds())
		}
		for len(ask) > 0 {
			if cancel != nil && cancel() || !deadline.IsZero() && time.Now().After(deadline) {
				for _, it := range ask {
					open += len(it.steps)
				}
				break
			}
			timeout := 100 * time.Millisecond << max(0, di-7)
			n := min(len(ask), 200, int(20*time.Second/timeout))
			qs := make([]*smt.Query, n)
			for i := range qs {
				qs[i], ask[i].whole = stepQuery(steps, steps[ask[i].steps[0]], d)
			}
			for i, r := range s.Batch(qs, timeout) {
				it := ask[i]
				queries++
				definite := last || it.whole
				if r == smt.Unknown && definite {
					r, _ = s.Check(qs[i], 20*time.Second, false)
					queries++
				}
				if r == smt.Unsat {
					forms++
				}
				if r == smt.Unsat || !definite {
					c.mu.Lock()
					c.forms[it.key] = r
					if r != smt.Unsat {
						c.forms[it.key] = smt.Sat
					}
					c.mu.Unlock()
				}
				switch {
				case r == smt.Unsat:
				case definite:
					if r == smt.Sat {
						wrong += len(it.steps)
					} else {
						open += len(it.steps)
					}
					c.mu.Lock()
					if c.Sample == "" {
						st := steps[it.steps[0]]
						c.Sample = r.String() + ": " + st.Raw.String() + " -> " + st.Res.String()
					}
					c.mu.Unlock()
				default:
					if CertVerbose && (d[0] >= 3 || r == smt.Unknown) {
						st := steps[it.steps[0]]
						fmt.Fprintf(os.Stderr, "PEND %v %s x%d n%d: %.300s  -->  %.300s\n", d, r, len(it.steps), qs[i].Nodes, st.Raw, st.Res)
					}
					pending = append(pending, it.steps...)
				}
			}
			ask = ask[n:]
		}
	}
	c.mu.Lock()
	c.Steps += len(steps)
	c.Forms += forms
	c.Queries += queries
	c.Open += open
	c.Wrong += wrong
	c.Time += time.Since(t0)
	c.mu.Unlock()
	return
}
