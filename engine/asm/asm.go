// Package asm executes machine code symbolically: the bytes the Go assembler
// and linker produced for an assembly function, disassembled and interpreted
// instruction by instruction.
package asm

import (
	"bytes"
	"debug/elf"
	"fmt"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/engine/term"
	"verif/engine/vm"
)

// Image is a linked program.
type Image struct {
	Arch    string
	path    string
	objdump string
	syms    []elf.Symbol // by address
	names   map[string]elf.Symbol
	secs    []sec
	mu      sync.Mutex
	code    map[string][]Inst
}

type sec struct {
	addr  uint64
	data  []byte
	write bool
}

// Inst is one disassembled instruction.
type Inst struct {
	Addr uint64
	Op   string
	Args []string
	Abs  uint64 // address named by the disassembler (branch target, pc-relative operand)
	Text string
}

// Load reads the program's sections and symbols.
func Load(path, arch, objdump string) (*Image, error) {
	f, err := elf.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	im := &Image{Arch: arch, path: path, objdump: objdump, names: map[string]elf.Symbol{}, code: map[string][]Inst{}}
	ss, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	for _, s := range ss {
		if s.Value == 0 {
			continue
		}
		im.names[s.Name] = s
		if s.Size > 0 {
			im.syms = append(im.syms, s)
		}
	}
	sort.SliceStable(im.syms, func(i, j int) bool { return im.syms[i].Value < im.syms[j].Value })
	for _, s := range f.Sections {
		if s.Flags&elf.SHF_ALLOC == 0 || s.Type == elf.SHT_NOBITS || s.Size == 0 {
			continue
		}
		b, err := s.Data()
		if err != nil {
			return nil, err
		}
		im.secs = append(im.secs, sec{s.Addr, b, s.Flags&elf.SHF_WRITE != 0})
	}
	return im, nil
}

// Has reports whether the program defines the symbol.
func (im *Image) Has(sym string) bool { _, ok := im.names[sym]; return ok }

// Disasm gives the instructions of a function.
func (im *Image) Disasm(sym string) ([]Inst, error) {
	im.mu.Lock()
	defer im.mu.Unlock()
	if c, ok := im.code[sym]; ok {
		return c, nil
	}
	args := []string{"-d", "--no-show-raw-insn", "--disassemble-symbols=" + sym}
	if im.Arch == "amd64" {
		args = append(args, "--x86-asm-syntax=intel")
	}
	cmd := exec.Command(im.objdump, append(args, im.path)...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("objdump: %v %s", err, se.String())
	}
	var out []Inst
	on := false
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasSuffix(l, "<"+sym+">:") {
			on = true
			continue
		}
		if !on || strings.TrimSpace(l) == "" {
			continue
		}
		a, rest, ok := strings.Cut(l, ":")
		if !ok {
			continue
		}
		addr, err := strconv.ParseUint(strings.TrimSpace(a), 16, 64)
		if err != nil {
			continue
		}
		in := Inst{Addr: addr, Text: strings.Join(strings.Fields(rest), " ")}
		rest = strings.TrimSpace(rest)
		if i := strings.Index(rest, " # "); i >= 0 {
			in.Abs = hexAfter(rest[i+3:])
			rest = strings.TrimSpace(rest[:i])
		}
		if i := strings.IndexByte(rest, '<'); i >= 0 { // symbolic comment on a target
			rest = strings.TrimSpace(rest[:i])
		}
		op, ops, _ := strings.Cut(strings.ReplaceAll(rest, "\t", " "), " ")
		in.Op = op
		in.Args = splitArgs(strings.TrimSpace(ops))
		out = append(out, in)
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("no code for %s", sym)
	}
	im.code[sym] = out
	return out, nil
}

func hexAfter(s string) uint64 {
	s = strings.TrimSpace(s)
	if f := strings.Fields(s); len(f) > 0 && strings.HasPrefix(f[0], "0x") {
		v, _ := strconv.ParseUint(f[0][2:], 16, 64)
		return v
	}
	return 0
}

// splitArgs splits at commas outside brackets and braces.
func splitArgs(s string) (out []string) {
	if s == "" {
		return nil
	}
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[', '{':
			d++
		case ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// parseNum reads an immediate.
func parseNum(s string) (int64, bool) {
	s = strings.TrimPrefix(strings.TrimSpace(s), "#")
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	var v uint64
	var err error
	if strings.HasPrefix(s, "0x") {
		v, err = strconv.ParseUint(s[2:], 16, 64)
	} else {
		v, err = strconv.ParseUint(s, 10, 64)
	}
	if err != nil {
		return 0, false
	}
	if neg {
		return -int64(v), true
	}
	return int64(v), true
}

// X executes functions of an image.
type X struct {
	M   *vm.M
	C   *term.Ctx
	Im  *Image
	CPU func(feature string) *term.Term

	funcs map[string]*vm.Func
	stat  map[uint64]int // symbol address -> object
	base  map[uint64]uint64
	fresh int
}

// New makes an executor.
func New(m *vm.M, im *Image) *X {
	return &X{M: m, C: m.C, Im: im, funcs: map[string]*vm.Func{}, stat: map[uint64]int{}}
}

// call is the environment of one activation.
type call struct {
	x      *X
	sym    string
	stack  int   // object
	entry  int64 // offset of the stack pointer on entry
	delta  int64 // address of stack offset 0 modulo 64
	align  map[int]int64
	need   map[string]bool
	preg   map[int]vm.Value // entry values of registers that must be kept
	retTok *term.Term
}

type undef struct{ Why string }

const stackBelow = 1024

// resolve turns an absolute address into an object, for constants and data of
// the program itself.
func (x *X) resolve(addr uint64) (vm.Ptr, bool) {
	i := sort.Search(len(x.Im.syms), func(i int) bool { return x.Im.syms[i].Value > addr })
	for k := i - 1; k >= 0 && k >= i-8; k-- {
		s := x.Im.syms[k]
		if addr >= s.Value+s.Size {
			continue
		}
		if id, ok := x.stat[s.Value]; ok {
			return vm.Ptr{Obj: id, Off: int64(addr - s.Value)}, true
		}
		for _, sc := range x.Im.secs {
			if s.Value >= sc.addr && s.Value+s.Size <= sc.addr+uint64(len(sc.data)) {
				if sc.write {
					vm.Unsupported("machine code uses variable %s", s.Name)
				}
				d := sc.data[s.Value-sc.addr:][:s.Size]
				cs := make([]vm.Cell, len(d))
				for j, b := range d {
					cs[j] = vm.Cell{V: x.C.Const(8, uint64(b))}
				}
				id := x.M.AllocStatic(cs, "data "+s.Name, true)
				x.stat[s.Value] = id
				return vm.Ptr{Obj: id, Off: int64(addr - s.Value)}, true
			}
		}
		break
	}
	return vm.Ptr{}, false
}

// at gives the pointer for an address value.
func (c *call) at(v vm.Value) vm.Ptr {
	switch p := v.(type) {
	case vm.Ptr:
		if p.Obj != 0 {
			return p
		}
		if q, ok := c.x.resolve(uint64(p.Off)); ok {
			return q
		}
		return p
	case *term.Term:
		if p.IsConst() {
			if q, ok := c.x.resolve(p.A); ok {
				return q
			}
			return vm.Ptr{Off: int64(p.A)}
		}
	}
	vm.Unsupported("memory access through a value that is not an address (%s)", c.x.M.Where)
	return vm.Ptr{}
}

// aligned checks an access that faults on misalignment.
func (c *call) aligned(s *vm.State, p vm.Ptr, n int64) bool {
	var base int64
	known := false
	switch {
	case p.Obj == c.stack:
		base, known = c.delta, true
	default:
		for a, id := range c.x.stat {
			if id == p.Obj {
				base, known = int64(a), true
			}
		}
	}
	if known && (base+p.Off)%n == 0 {
		return true
	}
	c.x.M.Panic(s, "misaligned access")
	return false
}

func (c *call) feature(s *vm.State, f string) {
	if f == "" || c.x.CPU == nil {
		return
	}
	has := c.x.CPU(f)
	if has.IsTrue() {
		return
	}
	key := f
	for _, p := range s.PC {
		key += fmt.Sprintf(",%p", p)
	}
	if c.need[key] {
		return
	}
	c.need[key] = true
	c.x.M.Asserts = append(c.x.M.Asserts, vm.Assertion{ID: "panic:instruction of " + f + " executed without it", PC: s.PC, Cond: has, Pos: c.x.M.Where, Kind: "panic"})
}

// Arg is one argument word group: a slice or pointer view, or a plain word.
type Arg struct {
	V    vm.Value // vm.Slice, vm.Ptr or *term.Term
	Size int64    // bytes per element (slice) or pointed-to bytes
	Name string
}

// Regs gives the entry value of a register: width 64 (general) or 32 (vector lane).
type Regs func(name string, lane int, w uint8) *term.Term

// Call runs sym from state s under the stack-based calling convention.
func (x *X) Call(s *vm.State, sym string, args []Arg, delta int64, init Regs) *vm.State {
	m, C := x.M, x.C
	ins, err := x.Im.Disasm(sym)
	if err != nil {
		vm.Unsupported("%v", err)
	}
	f := x.funcs[sym]
	if f == nil {
		f = x.compile(sym, ins)
		x.funcs[sym] = f
	}
	x.fresh++
	n := x.fresh
	c := &call{x: x, sym: sym, delta: delta, entry: stackBelow, need: map[string]bool{}, preg: map[int]vm.Value{}}
	// argument words
	type view struct {
		org  vm.Ptr
		id   int
		size int64
		was  []vm.Cell
		name string
	}
	var views []view
	var words []vm.Value
	mk := func(p vm.Ptr, size int64, name string) vm.Value {
		if p.Obj == 0 {
			return p
		}
		var cs []vm.Cell
		if size > 0 {
			l, ok := m.LoadCells(s, p, int(size))
			if !ok {
				vm.Unsupported("argument of %s", sym)
			}
			cs = append(cs, l...)
		}
		id := m.AllocCells(s, append([]vm.Cell(nil), cs...), name)
		views = append(views, view{p, id, size, cs, name})
		return vm.Ptr{Obj: id}
	}
	for _, a := range args {
		switch v := a.V.(type) {
		case vm.Slice:
			words = append(words, mk(v.P, v.Len*a.Size, a.Name), C.Const(64, uint64(v.Len)), C.Const(64, uint64(v.Cap)))
		case vm.Ptr:
			words = append(words, mk(v, a.Size, a.Name))
		case *term.Term:
			words = append(words, C.ZExt(v, 64))
		default:
			vm.Unsupported("argument of %s: %T", sym, a.V)
		}
	}
	// stack: scratch below, return address (or saved link), arguments
	var cells []vm.Cell
	word := func(v vm.Value) { cells = append(cells, m.CellsOf(v, 8)...) }
	for i := 0; i < stackBelow/8; i++ {
		word(init("stk", i, 64))
	}
	c.retTok = C.Var(fmt.Sprintf("asm_ret_%d", n), 64)
	word(c.retTok)
	for _, w := range words {
		word(w)
	}
	c.stack = m.AllocCells(s, cells, "stack of "+sym)
	sp := vm.Ptr{Obj: c.stack, Off: stackBelow}
	if m.WatchOn {
		// working copies of this call
		for _, v := range views {
			m.WatchAllow[v.id] = true
		}
		m.WatchAllow[c.stack] = true
	}
	st, _ := m.Exec(f, s, x.entry(c, sp, init), c)
	if st == nil {
		return nil
	}
	for i, v := range views {
		now := m.Obj(st, v.id).Cells
		lo, hi := -1, -1
		for k := range now {
			if now[k] != v.was[k] {
				if lo < 0 {
					lo = k
				}
				hi = k + 1
			}
		}
		delete(st.Mem, v.id)
		if lo < 0 {
			continue
		}
		for j, w := range views {
			if j != i && w.org.Obj == v.org.Obj && v.org.Off < w.org.Off+w.size && w.org.Off < v.org.Off+v.size {
				vm.Unsupported("overlapping arguments of %s", sym)
			}
		}
		for k := lo; k < hi; {
			if now[k] == v.was[k] {
				k++
				continue
			}
			e := k
			for e < hi && now[e] != v.was[e] {
				e++
			}
			if !m.StoreCells(st, vm.Ptr{Obj: v.org.Obj, Off: v.org.Off + int64(k)}, now[k:e]) {
				return nil
			}
			k = e
		}
	}
	delete(st.Mem, c.stack)
	return st
}

// exec is the decoded form of one instruction.
type exec1 func(c *call, r *vm.Run, s *vm.State)

func (x *X) compile(sym string, ins []Inst) *vm.Func {
	idx := map[uint64]int{}
	for i, in := range ins {
		idx[in.Addr] = i
	}
	lead := map[int]bool{0: true}
	isBr := func(in Inst) (target int, cond, ok bool) {
		t := ""
		switch x.Im.Arch {
		case "amd64":
			if in.Op == "jmp" {
				t, ok = in.Args[0], true
			} else if strings.HasPrefix(in.Op, "j") {
				t, cond, ok = in.Args[0], true, true
			}
		case "arm64":
			switch {
			case in.Op == "b":
				t, ok = in.Args[0], true
			case strings.HasPrefix(in.Op, "b."):
				t, cond, ok = in.Args[0], true, true
			case in.Op == "cbz" || in.Op == "cbnz":
				t, cond, ok = in.Args[1], true, true
			case in.Op == "tbz" || in.Op == "tbnz":
				t, cond, ok = in.Args[2], true, true
			}
		}
		if !ok {
			return
		}
		v, good := parseNum(t)
		k, in2 := idx[uint64(v)]
		if !good || !in2 {
			vm.Unsupported("branch out of %s: %s", sym, in.Text)
		}
		return k, cond, true
	}
	for i, in := range ins {
		if t, _, ok := isBr(in); ok {
			lead[t] = true
			lead[i+1] = true
		} else if in.Op == "ret" {
			lead[i+1] = true
		}
	}
	blk := map[int]int{}
	var starts []int
	for i := range ins {
		if lead[i] {
			blk[i] = len(starts)
			starts = append(starts, i)
		}
	}
	n := x.nregs()
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	f := &vm.Func{Name: "[machine code] " + sym, NRegs: n, Params: all}
	for bi, st := range starts {
		end := len(ins)
		if bi+1 < len(starts) {
			end = starts[bi+1]
		}
		b := &vm.Block{}
		term := false
		for i := st; i < end; i++ {
			in := ins[i]
			pos := fmt.Sprintf("%s+%#x: %s", sym[strings.LastIndexByte(sym, '/')+1:], in.Addr-ins[0].Addr, in.Text)
			vi := vm.Instr{Use: all, Def: -1, Pos: pos}
			if t, cond, ok := isBr(in); ok {
				term = true
				if !cond {
					b.Succs = []int{blk[t]}
					vi.Exec = func(r *vm.Run, s *vm.State) vm.Ctl { r.Goto(s, 0); return vm.Done }
				} else {
					if i+1 >= len(ins) {
						vm.Unsupported("%s runs off its end", sym)
					}
					b.Succs = []int{blk[t], blk[i+1]}
					cf := x.cond(in)
					vi.Exec = func(r *vm.Run, s *vm.State) vm.Ctl { return r.Branch(s, cf(r.Env.(*call), s), 0, 1) }
				}
			} else if in.Op == "ret" {
				term = true
				vi.Exec = func(r *vm.Run, s *vm.State) vm.Ctl {
					if x.ret(r.Env.(*call), s) {
						r.Return(s, nil)
					}
					return vm.Done
				}
			} else {
				ex := x.decode(in)
				vi.Exec = func(r *vm.Run, s *vm.State) vm.Ctl {
					if !ex(r.Env.(*call), s) {
						return vm.Done
					}
					return vm.Next
				}
			}
			b.Ins = append(b.Ins, vi)
		}
		if !term {
			if end >= len(ins) {
				b.Ins = append(b.Ins, vm.Instr{Def: -1, Exec: func(r *vm.Run, s *vm.State) vm.Ctl {
					vm.Unsupported("%s runs off its end", sym)
					return vm.Done
				}})
			} else {
				b.Succs = []int{blk[end]}
				b.Ins = append(b.Ins, vm.Instr{Use: all, Def: -1, Exec: func(r *vm.Run, s *vm.State) vm.Ctl { r.Goto(s, 0); return vm.Done }})
			}
		}
		f.Blocks = append(f.Blocks, b)
	}
	return f
}

// step executes one instruction; false: the path ends here.
type step func(c *call, s *vm.State) bool

func (x *X) nregs() int {
	if x.Im.Arch == "amd64" {
		return amdRegs
	}
	return armRegs
}

func (x *X) entry(c *call, sp vm.Ptr, init Regs) []vm.Value {
	if x.Im.Arch == "amd64" {
		return x.amdEntry(c, sp, init)
	}
	return x.armEntry(c, sp, init)
}

func (x *X) cond(in Inst) func(c *call, s *vm.State) *term.Term {
	if x.Im.Arch == "amd64" {
		return x.amdCond(in)
	}
	return x.armCond(in)
}

func (x *X) ret(c *call, s *vm.State) bool {
	if x.Im.Arch == "amd64" {
		return x.amdRet(c, s)
	}
	return x.armRet(c, s)
}

func (x *X) decode(in Inst) step {
	if x.Im.Arch == "amd64" {
		return x.amdDecode(in)
	}
	return x.armDecode(in)
}

// ---- shared arithmetic on values that may be addresses ----

const bias = 1 << 40

// flagsOf is the comparison of two words, as terms; ok is false if it is not
// determined (addresses of different objects).
func (x *X) cmpTerms(a, b vm.Value) (p, q *term.Term, ok bool) {
	ta, oka := a.(*term.Term)
	tb, okb := b.(*term.Term)
	if oka && okb {
		return ta, tb, true
	}
	pa, oka := a.(vm.Ptr)
	pb, okb := b.(vm.Ptr)
	if oka && okb && pa.Obj == pb.Obj {
		return x.C.Const(64, uint64(pa.Off+bias)), x.C.Const(64, uint64(pb.Off+bias)), true
	}
	// an address against zero
	if oka && pa.Obj != 0 {
		if t, ok := b.(*term.Term); ok && t.IsConst() && t.A == 0 {
			return x.C.Const(64, uint64(pa.Off+bias)), t, true
		}
	}
	return nil, nil, false
}

func norm(v vm.Value, C *term.Ctx) vm.Value {
	if p, ok := v.(vm.Ptr); ok && p.Obj == 0 {
		return C.Const(64, uint64(p.Off))
	}
	return v
}

func (x *X) add(a, b vm.Value) vm.Value {
	a, b = norm(a, x.C), norm(b, x.C)
	ta, oka := a.(*term.Term)
	tb, okb := b.(*term.Term)
	if oka && okb {
		return x.C.Add(ta, tb)
	}
	if p, ok := a.(vm.Ptr); ok && okb && tb.IsConst() {
		return vm.Ptr{Obj: p.Obj, Off: p.Off + int64(tb.A)}
	}
	if p, ok := b.(vm.Ptr); ok && oka && ta.IsConst() {
		return vm.Ptr{Obj: p.Obj, Off: p.Off + int64(ta.A)}
	}
	vm.Unsupported("address arithmetic (%s)", x.M.Where)
	return nil
}

func (x *X) sub(a, b vm.Value) vm.Value {
	a, b = norm(a, x.C), norm(b, x.C)
	if p, ok := a.(vm.Ptr); ok {
		if q, ok := b.(vm.Ptr); ok && p.Obj == q.Obj {
			return x.C.Const(64, uint64(p.Off-q.Off))
		}
	}
	if t, ok := b.(*term.Term); ok {
		return x.add(a, x.C.Neg(t))
	}
	vm.Unsupported("address arithmetic (%s)", x.M.Where)
	return nil
}

// and masks; the low bits of a stack address are known.
func (c *call) and(a, b vm.Value) vm.Value {
	x := c.x
	a, b = norm(a, x.C), norm(b, x.C)
	ta, oka := a.(*term.Term)
	tb, okb := b.(*term.Term)
	if oka && okb {
		return x.C.And(ta, tb)
	}
	if okb && tb.IsConst() {
		if p, ok := a.(vm.Ptr); ok && p.Obj == c.stack && tb.A|63 == ^uint64(0) {
			v := p.Off + c.delta
			return vm.Ptr{Obj: p.Obj, Off: (v & int64(tb.A)) - c.delta}
		}
	}
	if oka && ta.IsConst() {
		return c.and(b, a)
	}
	vm.Unsupported("address masking (%s)", x.M.Where)
	return nil
}

// ---- vector helpers: 4 lanes of 32 bits, lane 0 lowest ----

type vec [4]*term.Term

func (x *X) loadVec(s *vm.State, p vm.Ptr, n int) (v vec, ok bool) {
	if _, ok := x.M.LoadCells(s, p, n); !ok { // one access
		return v, false
	}
	z := x.C.Const(32, 0)
	for i := range v {
		v[i] = z
		if 4*i < n {
			t, _ := x.M.LoadTerm(s, vm.Ptr{Obj: p.Obj, Off: p.Off + int64(4*i)}, 4)
			v[i] = t
		}
	}
	return v, true
}

func (x *X) storeVec(s *vm.State, p vm.Ptr, v vec, n int) bool {
	var cs []vm.Cell
	for i := 0; 4*i < n; i++ {
		cs = append(cs, x.M.CellsOf(v[i], 4)...)
	}
	return x.M.StoreCells(s, p, cs)
}

func (x *X) bytesOf(v vec) (b [16]*term.Term) {
	for i := range b {
		k := uint8(8 * (i % 4))
		b[i] = x.C.Extract(v[i/4], k+7, k)
	}
	return
}

func (x *X) fromBytes(b [16]*term.Term) (v vec) {
	for i := range v {
		v[i] = x.C.Concat(b[4*i+3], b[4*i+2], b[4*i+1], b[4*i])
	}
	return
}

func (x *X) map2(a, b vec, f func(p, q *term.Term) *term.Term) (v vec) {
	for i := range v {
		v[i] = f(a[i], b[i])
	}
	return
}

// ---- SHA-1 functions ----

func (x *X) ch(b, c, d *term.Term) *term.Term {
	return x.C.Xor(x.C.And(x.C.Xor(c, d), b), d)
}
func (x *X) par(b, c, d *term.Term) *term.Term { return x.C.Xor(b, c, d) }
func (x *X) maj(b, c, d *term.Term) *term.Term {
	return x.C.Or(x.C.And(b, c), x.C.And(x.C.Or(b, c), d))
}
