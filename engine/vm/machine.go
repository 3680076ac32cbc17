package vm

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/engine/term"
)

// Oracle answers feasibility questions about path conditions.
type Oracle interface {
	// Feasible reports false only if the conjunction is unsatisfiable.
	Feasible(conj []*term.Term) bool
	// Values enumerates the possible values of t under conj (an
	// over-approximation); ok is false if there are more than max.
	Values(conj []*term.Term, t *term.Term, max int) (vals []uint64, ok bool)
}

type Assertion struct {
	ID   string
	PC   []*term.Term
	Cond *term.Term
	Pos  string
	Kind string // assert, panic, watch, cover
}

type M struct {
	Lossy   int // paths lost so far (panics, assumptions)
	C       *term.Ctx
	PtrSize int
	NextObj int
	Oracle  Oracle

	Asserts []Assertion
	Covers  []Assertion

	// Static holds the initial version of objects visible on every path
	// (globals, constants).
	Static map[int]*Obj

	// write watching: while WatchOn, stores to objects with ID < WatchBelow
	// (or Shared) are recorded unless allowed.
	WatchOn         bool
	WatchID         string
	WatchBelow      int
	WatchAllow      map[int]bool
	WatchOnlyShared bool
	WatchOnly       int // if set, only this object is watched

	Steps    int64
	MaxSteps int64
	Deadline time.Time
	Cancel   func() bool
	LoopCap  int

	Stuck []*term.Term // the path on which a loop went past its bound

	FuncsRun map[string]int
	Where    string // best-effort source position of the current instruction
	depth    int
	Notes    []string
}

func NewM(c *term.Ctx, ptrSize int) *M {
	return &M{C: c, PtrSize: ptrSize, NextObj: 1, MaxSteps: 200e6, LoopCap: 20000, FuncsRun: map[string]int{}, WatchAllow: map[int]bool{}, Static: map[int]*Obj{}}
}

type State struct {
	PC     []*term.Term
	Mem    map[int]*Obj
	Regs   []Value
	mid    bool
	blk    int
	idx    int
	iter   []int
	key    []int
	Defers []func(*Run, *State) // not merged across differing lists
	seq    int
}

func (m *M) NewState() *State { return &State{Mem: map[int]*Obj{}} }

func (s *State) Clone() *State {
	n := &State{PC: s.PC[:len(s.PC):len(s.PC)], Mem: make(map[int]*Obj, len(s.Mem)), Regs: append([]Value(nil), s.Regs...), mid: s.mid, blk: s.blk, idx: s.idx, iter: append([]int(nil), s.iter...), Defers: s.Defers[:len(s.Defers):len(s.Defers)]}
	for k, o := range s.Mem {
		n.Mem[k] = o
		o.owner = nil
	}
	return n
}

// Assume adds a conjunct; it returns false if the state became infeasible.
func (m *M) Assume(s *State, c *term.Term) bool {
	if c.IsTrue() {
		return true
	}
	if c.IsFalse() {
		return false
	}
	if c.Op == term.OAnd {
		for _, a := range c.Args {
			if !m.Assume(s, a) {
				return false
			}
		}
		return true
	}
	n := m.C.Not(c)
	for _, x := range s.PC {
		if x == c {
			return true
		}
		if x == n {
			return false
		}
	}
	s.PC = append(s.PC[:len(s.PC):len(s.PC)], c)
	return true
}

// known returns 1/0 if the condition is decided by the path condition, else -1.
func (m *M) known(s *State, c *term.Term) int {
	if c.IsConst() {
		return int(c.A)
	}
	n := m.C.Not(c)
	for _, x := range s.PC {
		if x == c {
			return 1
		}
		if x == n {
			return 0
		}
	}
	return -1
}

func (m *M) Alloc(s *State, size int, name string) int {
	id := m.NextObj
	m.NextObj++
	o := &Obj{ID: id, Cells: m.zeroCells(size), owner: s, Name: name}
	s.Mem[id] = o
	return id
}

// AllocStatic makes an object that exists on every path.
func (m *M) AllocStatic(cs []Cell, name string, ro bool) int {
	id := m.NextObj
	m.NextObj++
	m.Static[id] = &Obj{ID: id, Cells: cs, Name: name, RO: ro}
	return id
}

func (m *M) AllocCells(s *State, cs []Cell, name string) int {
	id := m.NextObj
	m.NextObj++
	s.Mem[id] = &Obj{ID: id, Cells: cs, owner: s, Name: name}
	return id
}

func (m *M) Obj(s *State, id int) *Obj {
	o := s.Mem[id]
	if o == nil {
		o = m.Static[id]
	}
	if o == nil {
		Unsupported("access to an object that does not exist on this path")
	}
	return o
}

func (m *M) wobj(s *State, id int) *Obj {
	o := m.Obj(s, id)
	if o.owner != s {
		n := *o
		n.Cells = append([]Cell(nil), o.Cells...)
		n.owner = s
		s.Mem[id] = &n
		return &n
	}
	return o
}

func pos(m *M) string { return m.Where }

// inBounds checks an access and records a violation if it is outside the object.
func (m *M) bounds(s *State, p Ptr, n int, what string) bool {
	if p.Obj == 0 {
		m.Panic(s, what+": invalid memory address")
		return false
	}
	o := m.Obj(s, p.Obj)
	if o.Lazy != nil {
		if n > 1<<16 {
			Unsupported("big input held at once")
		}
		if p.Off >= 0 && p.Off+int64(n) <= o.Size {
			return true
		}
	}
	if p.Off < 0 || p.Off+int64(n) > int64(len(o.Cells)) {
		m.Panic(s, fmt.Sprintf("%s outside object %s: offset %d size %d of %d", what, o.Name, p.Off, n, len(o.Cells)))
		return false
	}
	return true
}

func (m *M) Panic(s *State, msg string) {
	m.Lossy++
	m.Asserts = append(m.Asserts, Assertion{ID: "panic:" + msg, PC: s.PC, Cond: m.C.False(), Pos: pos(m), Kind: "panic"})
}

func (m *M) LoadCells(s *State, p Ptr, n int) ([]Cell, bool) {
	if !m.bounds(s, p, n, "read") {
		return nil, false
	}
	o := m.Obj(s, p.Obj)
	if o.Lazy != nil {
		cs := make([]Cell, n)
		for i := range cs {
			cs[i] = o.Lazy(p.Off + int64(i))
		}
		return cs, true
	}
	return o.Cells[p.Off : p.Off+int64(n)], true
}

func (m *M) StoreCells(s *State, p Ptr, cs []Cell) bool {
	if !m.bounds(s, p, len(cs), "write") {
		return false
	}
	o := m.Obj(s, p.Obj)
	if o.RO {
		m.Asserts = append(m.Asserts, Assertion{ID: "panic:write to read-only " + o.Name, PC: s.PC, Cond: m.C.False(), Pos: pos(m), Kind: "panic"})
		return false
	}
	if m.WatchOn && len(cs) > 0 && !m.WatchAllow[p.Obj] {
		if m.WatchOnly == p.Obj || m.WatchOnly == 0 && (o.Shared || (!m.WatchOnlyShared && p.Obj < m.WatchBelow)) {
			m.Asserts = append(m.Asserts, Assertion{ID: m.WatchID, PC: s.PC, Cond: m.C.False(), Pos: fmt.Sprintf("write of %d bytes at %s+%d, %s", len(cs), o.Name, p.Off, pos(m)), Kind: "watch"})
		}
	}
	if o.Lazy != nil {
		Unsupported("write to a big input")
	}
	o = m.wobj(s, p.Obj)
	copy(o.Cells[p.Off:], cs)
	return true
}

func (m *M) LoadTerm(s *State, p Ptr, n int) (*term.Term, bool) {
	cs, ok := m.LoadCells(s, p, n)
	if !ok {
		return nil, false
	}
	return m.termFromCells(cs), true
}

func (m *M) LoadWord(s *State, p Ptr) (Value, bool) {
	cs, ok := m.LoadCells(s, p, m.PtrSize)
	if !ok {
		return nil, false
	}
	return m.wordFromCells(cs), true
}

func (m *M) StoreVal(s *State, p Ptr, v Value, n int) bool {
	if r, ok := v.(*Raw); ok {
		return m.StoreCells(s, p, r.Cells)
	}
	return m.StoreCells(s, p, m.cellsOf(v, n))
}

func (m *M) TermFromCells(cs []Cell) *term.Term { return m.termFromCells(cs) }
func (m *M) WordFromCells(cs []Cell) Value      { return m.wordFromCells(cs) }
func (m *M) CellsOf(v Value, n int) []Cell      { return m.cellsOf(v, n) }
func (m *M) ZeroCells(n int) []Cell             { return m.zeroCells(n) }

// ---- control-flow graphs ----

type Instr struct {
	Exec func(*Run, *State) Ctl
	Use  []int
	Def  int // -1: none
	Pos  string
}

type Ctl int

const (
	Next  Ctl = iota
	Done      // state was handed on (jump, return, dead)
	Retry     // execute the same instruction again
)

type PhiCopy struct {
	Dst int
	Src func(*Run, *State) Value
	Use int // register read, or -1
}

type Block struct {
	Ins   []Instr
	Succs []int
	Phis  [][]PhiCopy // per successor

	live  []int
	path  []int // component order per level
	loops []int // loop ids, outermost first
}

type Func struct {
	Name   string
	NRegs  int
	Params []int
	Blocks []*Block
	ready  bool
	header map[int]int // loop id -> header block
}

// prepare computes liveness and the weak topological order.
func (f *Func) prepare() {
	if f.ready {
		return
	}
	f.ready = true
	n := len(f.Blocks)
	// liveness
	liveIn := make([]map[int]bool, n)
	gen := make([]map[int]bool, n)
	kill := make([]map[int]bool, n)
	for i, b := range f.Blocks {
		g, k := map[int]bool{}, map[int]bool{}
		for _, in := range b.Ins {
			for _, u := range in.Use {
				if !k[u] {
					g[u] = true
				}
			}
			if in.Def >= 0 {
				k[in.Def] = true
			}
		}
		gen[i], kill[i] = g, k
		liveIn[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			out := map[int]bool{}
			for si, t := range b.Succs {
				defs := map[int]bool{}
				if si < len(b.Phis) {
					for _, p := range b.Phis[si] {
						defs[p.Dst] = true
					}
				}
				for r := range liveIn[t] {
					if !defs[r] {
						out[r] = true
					}
				}
				if si < len(b.Phis) {
					for _, p := range b.Phis[si] {
						if p.Use >= 0 {
							out[p.Use] = true
						}
					}
				}
			}
			in := liveIn[i]
			for r := range gen[i] {
				if !in[r] {
					in[r] = true
					changed = true
				}
			}
			for r := range out {
				if !kill[i][r] && !in[r] {
					in[r] = true
					changed = true
				}
			}
		}
	}
	for i, b := range f.Blocks {
		for r := range liveIn[i] {
			b.live = append(b.live, r)
		}
		sort.Ints(b.live)
		b.path, b.loops = nil, nil
	}
	f.header = map[int]int{}
	loopID := 0
	var decompose func(nodes []int, removed map[int]bool)
	decompose = func(nodes []int, removed map[int]bool) {
		inSet := map[int]bool{}
		for _, x := range nodes {
			inSet[x] = true
		}
		// Tarjan; components come out in reverse topological order
		index := map[int]int{}
		low := map[int]int{}
		on := map[int]bool{}
		var st []int
		cnt := 0
		var comps [][]int
		var dfs func(v int)
		dfs = func(v int) {
			cnt++
			index[v], low[v] = cnt, cnt
			st = append(st, v)
			on[v] = true
			for _, w := range f.Blocks[v].Succs {
				if !inSet[w] || removed[w] {
					continue
				}
				if index[w] == 0 {
					dfs(w)
					low[v] = min(low[v], low[w])
				} else if on[w] {
					low[v] = min(low[v], index[w])
				}
			}
			if low[v] == index[v] {
				var comp []int
				for {
					w := st[len(st)-1]
					st = st[:len(st)-1]
					on[w] = false
					comp = append(comp, w)
					if w == v {
						break
					}
				}
				comps = append(comps, comp)
			}
		}
		// removed headers start first so that the order follows control flow
		for _, x := range nodes {
			if removed[x] && index[x] == 0 {
				dfs(x)
			}
		}
		for _, x := range nodes {
			if index[x] == 0 {
				dfs(x)
			}
		}
		for ci := range comps {
			comp := comps[len(comps)-1-ci]
			self := false
			if len(comp) == 1 {
				for _, w := range f.Blocks[comp[0]].Succs {
					if w == comp[0] && !removed[w] {
						self = true
					}
				}
			}
			if len(comp) == 1 && !self {
				f.Blocks[comp[0]].path = append(f.Blocks[comp[0]].path, ci)
				continue
			}
			// loop: header = the node entered from outside (lowest discovery)
			h := comp[0]
			for _, x := range comp {
				if index[x] < index[h] {
					h = x
				}
			}
			id := loopID
			loopID++
			f.header[id] = h
			sort.Ints(comp)
			for _, x := range comp {
				f.Blocks[x].path = append(f.Blocks[x].path, ci)
				f.Blocks[x].loops = append(f.Blocks[x].loops, id)
			}
			r2 := map[int]bool{h: true}
			for k := range removed {
				r2[k] = true
			}
			ordered := append([]int{h}, comp...)
			seen := map[int]bool{}
			var uniq []int
			for _, x := range ordered {
				if !seen[x] {
					seen[x] = true
					uniq = append(uniq, x)
				}
			}
			decompose(uniq, r2)
		}
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	decompose(all, map[int]bool{})
}

type outcome struct {
	s   *State
	ret []Value
}

// Run is one activation of a function.
type Run struct {
	M    *M
	F    *Func
	work []*State
	outs []outcome
	cur  *State
	Env  any
}

func (r *Run) key(s *State) []int {
	b := r.F.Blocks[s.blk]
	var k []int
	for i, p := range b.path {
		k = append(k, p)
		if i < len(b.loops) {
			k = append(k, s.iter[i])
		}
	}
	return k
}

func cmpKey(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

// Goto moves s to successor number si of its current block.
func (r *Run) Goto(s *State, si int) {
	from := r.F.Blocks[s.blk]
	to := from.Succs[si]
	if si < len(from.Phis) && len(from.Phis[si]) > 0 {
		ph := from.Phis[si]
		tmp := make([]Value, len(ph))
		for i := range ph {
			tmp[i] = ph[i].Src(r, s)
		}
		for i := range ph {
			s.Regs[ph[i].Dst] = tmp[i]
		}
	}
	tb := r.F.Blocks[to]
	// iteration counters
	ni := make([]int, len(tb.loops))
	for i, id := range tb.loops {
		if i < len(from.loops) && from.loops[i] == id {
			ni[i] = s.iter[i]
			if r.F.header[id] == to {
				ni[i]++
				if ni[i] > r.M.LoopCap {
					r.M.Stuck = s.PC
					Unsupported("loop bound exceeded in %s", r.F.Name)
				}
				if ni[i] >= 130 && r.M.Oracle != nil && len(s.PC) > 0 && r.symbolicLoop(s) {
					if !r.M.Oracle.Feasible(s.PC) {
						return
					}
				}
				for j := i + 1; j < len(ni); j++ {
					ni[j] = 0
				}
				break
			}
		} else {
			break
		}
	}
	s.iter = ni
	s.blk, s.idx, s.mid = to, 0, false
	s.key = r.key(s)
	r.work = append(r.work, s)
}

// symbolicLoop: only ask the solver when the newest conjunct was added inside
// the loop, i.e. the path condition grew since the last query for this state.
func (r *Run) symbolicLoop(s *State) bool {
	if s.seq == len(s.PC) {
		return false
	}
	s.seq = len(s.PC)
	return true
}

// Push re-queues a state at its current (mid-block) position.
func (r *Run) Push(s *State) {
	s.mid = true
	s.key = r.key(s)
	r.work = append(r.work, s)
}

func (r *Run) Return(s *State, vals []Value) { r.outs = append(r.outs, outcome{s, vals}) }

// Branch continues s under c at successor a and under not c at successor b.
func (r *Run) Branch(s *State, c *term.Term, a, b int) Ctl {
	switch r.M.known(s, c) {
	case 1:
		r.Goto(s, a)
		return Done
	case 0:
		r.Goto(s, b)
		return Done
	}
	t := s.Clone()
	if r.M.Assume(s, c) {
		r.Goto(s, a)
	}
	if r.M.Assume(t, r.M.C.Not(c)) {
		r.Goto(t, b)
	}
	return Done
}

// Split forks s on a condition at the current instruction: s continues with c
// (after fixA), a clone is queued with not c (after fixB) to re-execute it.
func (r *Run) Split(s *State, c *term.Term, fixA, fixB func(*State)) Ctl {
	switch r.M.known(s, c) {
	case 1:
		fixA(s)
		return Retry
	case 0:
		fixB(s)
		return Retry
	}
	t := s.Clone()
	if r.M.Assume(t, r.M.C.Not(c)) {
		fixB(t)
		r.Push(t)
	}
	if r.M.Assume(s, c) {
		fixA(s)
		return Retry
	}
	return Done
}

// Concretise forks s over the possible values of the term in register reg.
func (r *Run) Concretise(s *State, t *term.Term, set func(*State, *term.Term), max int) Ctl {
	if r.M.Oracle == nil {
		Unsupported("symbolic value where a concrete one is needed (%s)", r.M.Where)
	}
	vals, ok := r.M.Oracle.Values(s.PC, t, max)
	if !ok {
		Unsupported("more than %d values for a symbolic size or index (%s)", max, r.M.Where)
	}
	for i, v := range vals {
		k := r.M.C.Const(t.W, v)
		n := s
		if i < len(vals)-1 {
			n = s.Clone()
		}
		if !r.M.Assume(n, r.M.C.Eq(t, k)) {
			continue
		}
		set(n, k)
		r.Push(n)
	}
	return Done
}

// Exec runs f from state s (consumed) with the given arguments and returns
// the merged final state, or nil if no path returns.
func (m *M) Exec(f *Func, s *State, args []Value, env any) (*State, []Value) {
	f.prepare()
	m.FuncsRun[f.Name]++
	m.depth++
	defer func() { m.depth-- }()
	if m.depth > 400 {
		Unsupported("call depth exceeded in %s", f.Name)
	}
	saveRegs, saveIter, saveBlk, saveIdx, saveDef, saveSeq := s.Regs, s.iter, s.blk, s.idx, s.Defers, s.seq
	r := &Run{M: m, F: f, Env: env}
	entryPC, entryLossy := s.PC, m.Lossy
	s.Regs = make([]Value, f.NRegs)
	for i, p := range f.Params {
		s.Regs[p] = args[i]
	}
	s.Defers = nil
	s.seq = len(s.PC)
	s.blk, s.idx, s.mid = 0, 0, false
	s.iter = make([]int, len(f.Blocks[0].loops))
	s.key = r.key(s)
	r.work = []*State{s}
	for len(r.work) > 0 {
		// pick the earliest position
		bi := 0
		for i := 1; i < len(r.work); i++ {
			if c := cmpKey(r.work[i].key, r.work[bi].key); c < 0 || c == 0 && r.work[i].mid && !r.work[bi].mid {
				bi = i
			}
		}
		st := r.work[bi]
		r.work = append(r.work[:bi], r.work[bi+1:]...)
		if !st.mid {
			// merge everything at the same position
			var rest []*State
			for _, o := range r.work {
				if !o.mid && o.blk == st.blk && cmpKey(o.key, st.key) == 0 && len(o.Defers) == len(st.Defers) {
					st = r.merge(st, o)
				} else {
					rest = append(rest, o)
				}
			}
			r.work = rest
		}
		r.step(st)
	}
	var res *State
	var rets []Value
	for _, o := range r.outs {
		if res == nil {
			res, rets = o.s, o.ret
			continue
		}
		sel, pc := m.mergePC(res.PC, o.s.PC)
		nr := make([]Value, len(rets))
		for i := range rets {
			nr[i] = m.MergeVal(sel, rets[i], o.ret[i])
		}
		m.mergeMem(sel, res, o.s)
		res.PC = pc
		rets = nr
	}
	if res != nil {
		res.Regs, res.iter, res.blk, res.idx, res.Defers, res.seq = saveRegs, saveIter, saveBlk, saveIdx, saveDef, saveSeq
		res.mid = true
		if m.Lossy == entryLossy {
			// every branch was exhaustive and no path was lost: the outcomes
			// together cover exactly the states the call was entered with
			res.PC = entryPC
		}
		if res.seq > len(res.PC) {
			res.seq = len(res.PC)
		}
	}
	return res, rets
}

func (r *Run) step(s *State) {
	b := r.F.Blocks[s.blk]
	for {
		if s.idx >= len(b.Ins) {
			panic("vm: block without terminator in " + r.F.Name)
		}
		in := &b.Ins[s.idx]
		r.M.Steps++
		if r.M.Steps&0xfff == 0 {
			if r.M.Steps > r.M.MaxSteps {
				Unsupported("step budget exceeded")
			}
			if r.M.Cancel != nil && r.M.Cancel() {
				Unsupported("stopped")
			}
			if !r.M.Deadline.IsZero() && time.Now().After(r.M.Deadline) {
				Unsupported("time budget exceeded during symbolic execution")
			}
		}
		if in.Pos != "" {
			r.M.Where = in.Pos
		}
		switch in.Exec(r, s) {
		case Next:
			s.idx++
		case Done:
			return
		}
	}
}

func (r *Run) merge(a, b *State) *State {
	m := r.M
	sel, pc := m.mergePC(a.PC, b.PC)
	live := r.F.Blocks[a.blk].live
	regs := make([]Value, len(a.Regs))
	for _, x := range live {
		regs[x] = m.MergeVal(sel, a.Regs[x], b.Regs[x])
	}
	a.Regs = regs
	m.mergeMem(sel, a, b)
	a.PC = pc
	if a.seq > len(pc) {
		a.seq = len(pc)
	}
	return a
}

// mergePC returns the selector of a against b and the merged condition.
func (m *M) mergePC(a, b []*term.Term) (*term.Term, []*term.Term) {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	ra := m.C.True()
	if len(a) > n {
		ra = m.C.And(a[n:]...)
	}
	rb := m.C.True()
	if len(b) > n {
		rb = m.C.And(b[n:]...)
	}
	pc := append([]*term.Term(nil), a[:n]...)
	or := m.orSimplify(ra, rb)
	if !or.IsTrue() {
		pc = append(pc, or)
	}
	// prefer the smaller selector
	if ra.Op == term.OAnd && rb.Op != term.OAnd {
		return m.C.Not(rb), pc
	}
	return ra, pc
}

func conj(t *term.Term) []*term.Term {
	if t.Op == term.OAnd {
		return t.Args
	}
	return []*term.Term{t}
}

// orSimplify computes ra or rb, factoring out shared conjuncts and
// cancelling a complementary one.
func (m *M) orSimplify(ra, rb *term.Term) *term.Term {
	sa, sb := map[*term.Term]bool{}, map[*term.Term]bool{}
	for _, x := range conj(ra) {
		sa[x] = true
	}
	for _, x := range conj(rb) {
		sb[x] = true
	}
	var shared, oa, ob []*term.Term
	for _, x := range conj(ra) {
		if sb[x] {
			shared = append(shared, x)
		} else {
			oa = append(oa, x)
		}
	}
	for _, x := range conj(rb) {
		if !sa[x] {
			ob = append(ob, x)
		}
	}
	o := m.C.Or(m.C.And(oa...), m.C.And(ob...))
	return m.C.And(append(shared, o)...)
}

func (m *M) MergeVal(c *term.Term, a, b Value) Value {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *term.Term:
		if y, ok := b.(*term.Term); ok && x.W == y.W {
			return m.C.Ite(c, x, y)
		}
	case *Raw:
		if y, ok := b.(*Raw); ok && len(x.Cells) == len(y.Cells) {
			if x == y {
				return x
			}
			return &Raw{m.mergeCells(c, x.Cells, y.Cells)}
		}
	case *Tuple:
		if y, ok := b.(*Tuple); ok && len(x.Vs) == len(y.Vs) {
			vs := make([]Value, len(x.Vs))
			for i := range vs {
				vs[i] = m.MergeVal(c, x.Vs[i], y.Vs[i])
			}
			return &Tuple{vs}
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.Typ != nil && x.Typ == y.Typ {
			if sameValue(x.Val, y.Val) {
				return x
			}
			if _, ok := x.Val.(*term.Term); ok {
				return Iface{x.Typ, m.MergeVal(c, x.Val, y.Val)}
			}
		}
		if sameValue(a, b) {
			return a
		}
		return &VIte{c, a, b}
	}
	if _, ok := b.(Iface); ok {
		return &VIte{c, a, b}
	}
	if a == b {
		return a
	}
	if ca, ok := a.(*Closure); ok {
		if cb, ok := b.(*Closure); ok && ca.Fn == cb.Fn && len(ca.Bind) == len(cb.Bind) {
			n := &Closure{Fn: ca.Fn, IsNil: ca.IsNil}
			for i := range ca.Bind {
				n.Bind = append(n.Bind, m.MergeVal(c, ca.Bind[i], cb.Bind[i]))
			}
			return n
		}
	}
	return &VIte{c, a, b}
}

func (m *M) mergeCells(c *term.Term, a, b []Cell) []Cell {
	out := make([]Cell, len(a))
	for i := 0; i < len(a); {
		x, y := a[i], b[i]
		if x.Idx == y.Idx && sameValue(x.V, y.V) {
			out[i] = x
			i++
			continue
		}
		// aligned fragments of the same size: merge whole values
		if x.Idx == 0 && y.Idx == 0 {
			n := m.termBytes(x.V)
			if n == m.termBytes(y.V) && i+n <= len(a) && whole(a[i:i+n]) && whole(b[i:i+n]) {
				v := m.MergeVal(c, x.V, y.V)
				for j := 0; j < n; j++ {
					out[i+j] = Cell{v, uint8(j)}
				}
				i += n
				continue
			}
		}
		_, xt := x.V.(*term.Term)
		_, yt := y.V.(*term.Term)
		if xt && yt {
			// try a larger unit: a whole fragment on one side
			done := false
			for _, n := range []int{8, 4, 2} {
				if i+n > len(a) {
					continue
				}
				if (x.Idx == 0 && m.termBytes(x.V) == n && whole(a[i:i+n]) && allTerms(b[i:i+n])) ||
					(y.Idx == 0 && m.termBytes(y.V) == n && whole(b[i:i+n]) && allTerms(a[i:i+n])) {
					v := m.C.Ite(c, m.termFromCells(a[i:i+n]), m.termFromCells(b[i:i+n]))
					for j := 0; j < n; j++ {
						out[i+j] = Cell{v, uint8(j)}
					}
					i += n
					done = true
					break
				}
			}
			if done {
				continue
			}
			v := m.C.Ite(c, m.byteOf(x), m.byteOf(y))
			out[i] = Cell{v, 0}
			i++
			continue
		}
		var n int
		if !xt {
			n = m.termBytes(x.V)
		} else {
			n = m.termBytes(y.V)
		}
		if i+n > len(a) {
			Unsupported("merging torn words")
		}
		va, vb := m.fragOrZero(a[i:i+n], y.V), m.fragOrZero(b[i:i+n], x.V)
		v := m.MergeVal(c, va, vb)
		for j := 0; j < n; j++ {
			out[i+j] = Cell{v, uint8(j)}
		}
		i += n
	}
	return out
}

// fragOrZero reads a whole non-numeric fragment; all-zero bytes are the zero
// value of the same kind as like.
func (m *M) fragOrZero(cs []Cell, like Value) Value {
	if _, ok := cs[0].V.(*term.Term); !ok {
		if !whole(cs) || cs[0].Idx != 0 {
			Unsupported("merging torn words")
		}
		return cs[0].V
	}
	for _, c := range cs {
		t, ok := c.V.(*term.Term)
		if !ok {
			Unsupported("merging torn words")
		}
		if b := m.byteOf(Cell{t, c.Idx}); !b.IsConst() || b.A != 0 {
			if len(cs) == m.PtrSize {
				return m.termFromCells(cs)
			}
			Unsupported("merging a pointer with plain bytes")
		}
	}
	return ZeroLike(like)
}

// ZeroLike is the zero value of v's kind.
func ZeroLike(v Value) Value {
	switch x := v.(type) {
	case Slice:
		return Slice{}
	case Str:
		return Str{}
	case Iface:
		return Iface{}
	case *VIte:
		return ZeroLike(x.A)
	}
	return Ptr{}
}

// Frag reads a whole non-numeric fragment of the size of zero's kind.
func (m *M) Frag(cs []Cell, zero Value) Value { return m.fragOrZero(cs, zero) }

func whole(cs []Cell) bool {
	for i, c := range cs {
		if c.Idx != uint8(i) || !sameValue(c.V, cs[0].V) {
			return false
		}
	}
	return true
}
func allTerms(cs []Cell) bool {
	for _, c := range cs {
		if _, ok := c.V.(*term.Term); !ok {
			return false
		}
	}
	return true
}

// mergeMem merges b's memory into a (a's values under sel).
func (m *M) mergeMem(sel *term.Term, a, b *State) {
	for id, ob := range b.Mem {
		oa, ok := a.Mem[id]
		if !ok {
			oa, ok = m.Static[id]
		}
		if !ok {
			ob.owner = nil
			a.Mem[id] = ob
			continue
		}
		if oa == ob {
			continue
		}
		n := *oa
		n.Cells = m.mergeCells(sel, oa.Cells, ob.Cells)
		n.owner = a
		a.Mem[id] = &n
	}
	for id, oa := range a.Mem {
		if _, ok := b.Mem[id]; ok {
			continue
		}
		if ob, ok := m.Static[id]; ok {
			n := *oa
			n.Cells = m.mergeCells(sel, oa.Cells, ob.Cells)
			n.owner = a
			a.Mem[id] = &n
		}
	}
}

// Assert records an obligation.
func (m *M) Assert(s *State, id string, c *term.Term) {
	m.Asserts = append(m.Asserts, Assertion{ID: id, PC: s.PC, Cond: c, Pos: pos(m), Kind: "assert"})
}
func (m *M) Cover(s *State, id string, c *term.Term) {
	m.Covers = append(m.Covers, Assertion{ID: id, PC: s.PC, Cond: c, Pos: pos(m), Kind: "cover"})
}

func (m *M) Funcs() []string {
	var out []string
	for k := range m.FuncsRun {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Describe renders a value for diagnostics.
func Describe(v Value) string {
	switch x := v.(type) {
	case *term.Term:
		return x.String()
	case *Raw:
		return fmt.Sprintf("raw[%d]", len(x.Cells))
	case *VIte:
		return "ite(" + Describe(x.A) + "," + Describe(x.B) + ")"
	}
	return strings.TrimPrefix(fmt.Sprintf("%T%v", v, v), "vm.")
}
