// Package term implements hash-consed bit-vector terms (width 1..64) with a
// normaliser, a concrete evaluator and an SMT-LIB printer.
package term

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OXor
	OAdd // sum of Coef[i]*Args[i] + A
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	ORotl   // by A bits
	OConcat // Args[0] is the most significant piece
	OExtract
	OSExt
	OIte
	OEq
	OUlt
	OSlt
	OUF
)

var opName = map[Op]string{OConst: "const", OVar: "var", ONot: "not", OAnd: "and", OOr: "or", OXor: "xor", OAdd: "add", OMul: "mul", OUDiv: "udiv", OURem: "urem", OSDiv: "sdiv", OSRem: "srem", OShl: "shl", OLShr: "lshr", OAShr: "ashr", ORotl: "rotl", OConcat: "concat", OExtract: "extract", OSExt: "sext", OIte: "ite", OEq: "eq", OUlt: "ult", OSlt: "slt", OUF: "uf"}

type Term struct {
	ID   int32
	Op   Op
	W    uint8
	A, B uint64 // const value | extract hi,lo | rotl amount | add constant
	Name string
	Args []*Term
	Coef []uint64
}

type Ctx struct {
	SumCap int // sums with more terms are not opened again (0: no limit)

	table map[uint64][]*Term
	All   []*Term
	bools [2]*Term
	// concrete interpretation of uninterpreted functions; used to fold
	// applications whose arguments are all constant.
	UFEval map[string]func(args []uint64) uint64
	Vars   map[string]*Term
	exMemo map[exKey]*Term
	// J, if set, records what the normaliser does (see journal.go).
	J *Journal
}

func NewCtx() *Ctx {
	c := &Ctx{table: map[uint64][]*Term{}, UFEval: map[string]func([]uint64) uint64{}, Vars: map[string]*Term{}, exMemo: map[exKey]*Term{}}
	c.bools[0] = c.Const(1, 0)
	c.bools[1] = c.Const(1, 1)
	return c
}

func Mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func (c *Ctx) mk(op Op, w uint8, a, b uint64, name string, args []*Term, coef []uint64) *Term {
	h := mix(uint64(op)<<8|uint64(w), a)
	h = mix(h, b+0x1234567)
	for i := 0; i < len(name); i++ {
		h = mix(h, uint64(name[i]))
	}
	for _, t := range args {
		h = mix(h, uint64(t.ID)+77)
	}
	for _, t := range coef {
		h = mix(h, t)
	}
	bucket := c.table[h]
next:
	for _, t := range bucket {
		if t.Op != op || t.W != w || t.A != a || t.B != b || t.Name != name || len(t.Args) != len(args) || len(t.Coef) != len(coef) {
			continue
		}
		for i := range args {
			if t.Args[i] != args[i] {
				continue next
			}
		}
		for i := range coef {
			if t.Coef[i] != coef[i] {
				continue next
			}
		}
		return t
	}
	t := &Term{ID: int32(len(c.All)), Op: op, W: w, A: a, B: b, Name: name, Args: args, Coef: coef}
	c.All = append(c.All, t)
	c.table[h] = append(bucket, t)
	return t
}

func (c *Ctx) Const(w uint8, v uint64) *Term { return c.mk(OConst, w, v&Mask(w), 0, "", nil, nil) }
func (c *Ctx) True() *Term                   { return c.bools[1] }
func (c *Ctx) False() *Term                  { return c.bools[0] }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.bools[1]
	}
	return c.bools[0]
}
func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.Vars[name]; ok {
		if t.W != w {
			panic("term: variable " + name + " redeclared with another width")
		}
		return t
	}
	t := c.mk(OVar, w, 0, 0, name, nil, nil)
	c.Vars[name] = t
	return t
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 1 && t.A == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 1 && t.A == 0 }

func (c *Ctx) not_(x *Term) *Term {
	switch x.Op {
	case OConst:
		return c.Const(x.W, ^x.A)
	case ONot:
		return x.Args[0]
	case OIte:
		if x.Args[1].IsConst() && x.Args[2].IsConst() {
			return c.Ite(x.Args[0], c.Not(x.Args[1]), c.Not(x.Args[2]))
		}
	}
	return c.mk(ONot, x.W, 0, 0, "", []*Term{x}, nil)
}

func byID(a []*Term) { sort.Slice(a, func(i, j int) bool { return a[i].ID < a[j].ID }) }

func isConstIte(t *Term) bool { return t.Op == OIte && t.Args[1].IsConst() && t.Args[2].IsConst() }

// zero runs helper: does the term have constant-zero pieces?
func hasZeroPiece(t *Term) bool {
	if t.Op != OConcat {
		return false
	}
	for _, a := range t.Args {
		if a.IsConst() && a.A == 0 {
			return true
		}
	}
	return false
}

type seg struct {
	lo, w uint8
	t     *Term // piece, width w
}

func (c *Ctx) segs(t *Term) []seg {
	if t.Op == OConcat {
		var out []seg
		lo := uint8(0)
		for i := len(t.Args) - 1; i >= 0; i-- {
			a := t.Args[i]
			out = append(out, seg{lo, a.W, a})
			lo += a.W
		}
		return out
	}
	return []seg{{0, t.W, t}}
}

// tryDisjoint merges operands whose nonzero bit ranges do not overlap into a
// concatenation (valid for or, xor and add). It returns nil if they overlap.
func (c *Ctx) tryDisjoint(args []*Term) *Term {
	any := false
	for _, a := range args {
		if hasZeroPiece(a) {
			any = true
		} else if a.Op != OConst {
			return nil
		}
	}
	if !any {
		return nil
	}
	w := args[0].W
	cuts := map[uint8]bool{0: true, w: true}
	for _, a := range args {
		for _, s := range c.segs(a) {
			cuts[s.lo] = true
			cuts[s.lo+s.w] = true
		}
	}
	// constants: also split at nonzero runs
	for _, a := range args {
		if a.Op == OConst {
			for i := uint8(0); i < w; i++ {
				if i > 0 && (a.A>>i)&1 != (a.A>>(i-1))&1 {
					cuts[i] = true
				}
			}
		}
	}
	var cl []int
	for k := range cuts {
		cl = append(cl, int(k))
	}
	sort.Ints(cl)
	var pieces []*Term // LSB first
	for i := 0; i+1 < len(cl); i++ {
		lo, hi := uint8(cl[i]), uint8(cl[i+1])-1
		var nz *Term
		for _, a := range args {
			p := c.Extract(a, hi, lo)
			if p.IsConst() && p.A == 0 {
				continue
			}
			if nz != nil {
				return nil
			}
			nz = p
		}
		if nz == nil {
			nz = c.Const(hi-lo+1, 0)
		}
		pieces = append(pieces, nz)
	}
	for i, j := 0, len(pieces)-1; i < j; i, j = i+1, j-1 {
		pieces[i], pieces[j] = pieces[j], pieces[i]
	}
	return c.Concat(pieces...)
}

func maskRuns(m uint64, w uint8) int {
	n := 0
	prev := uint64(0)
	for i := uint8(0); i < w; i++ {
		b := (m >> i) & 1
		if b == 1 && prev == 0 {
			n++
		}
		prev = b
	}
	return n
}

// assoc handles And/Or flattening, constants, duplicates and complements.
func (c *Ctx) andOr_(op Op, xs ...*Term) *Term {
	w := xs[0].W
	unit, zero := Mask(w), uint64(0)
	if op == OOr {
		unit, zero = 0, Mask(w)
	}
	k := unit
	var args []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.W != w {
			panic(fmt.Sprintf("width mismatch in %s: %d vs %d", opName[op], w, t.W))
		}
		if t.Op == op {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t.Op == OConst {
			if op == OAnd {
				k &= t.A
			} else {
				k |= t.A
			}
			return
		}
		args = append(args, t)
	}
	for _, x := range xs {
		add(x)
	}
	if k == zero {
		return c.Const(w, zero)
	}
	byID(args)
	out := args[:0:0]
	for i, a := range args {
		if i > 0 && args[i-1] == a {
			continue
		}
		out = append(out, a)
	}
	args = out
	if op == OAnd && w > 1 && len(args) > 1 {
		for _, z := range args {
			if !hasZeroPiece(z) {
				continue
			}
			sg := c.segs(z)
			ps := make([]*Term, 0, len(sg))
			for i := len(sg) - 1; i >= 0; i-- {
				q := sg[i]
				if q.t.IsConst() && q.t.A == 0 {
					ps = append(ps, q.t)
					continue
				}
				sub := []*Term{c.Const(q.w, k>>q.lo)}
				for _, a := range args {
					sub = append(sub, c.Extract(a, q.lo+q.w-1, q.lo))
				}
				ps = append(ps, c.And(sub...))
			}
			return c.Concat(ps...)
		}
	}
	if len(args) > 1 {
		set := map[*Term]bool{}
		for _, a := range args {
			set[a] = true
		}
		for _, a := range args {
			if a.Op == ONot && set[a.Args[0]] {
				return c.Const(w, zero)
			}
		}
		// absorption at width 1: x & (x|y) = x ; x & (!x | y) = x & y
		if w == 1 && len(args) <= 64 {
			dual := OOr
			if op == OOr {
				dual = OAnd
			}
			changed := false
			var na []*Term
			for _, a := range args {
				if a.Op == dual {
					absorbed := false
					var rest []*Term
					for _, b := range a.Args {
						if set[b] {
							absorbed = true
							break
						}
						nb := b
						if b.Op == ONot {
							nb = b.Args[0]
							if set[nb] {
								continue
							}
						} else {
							drop := false
							for _, x := range args {
								if x.Op == ONot && x.Args[0] == b {
									drop = true
									break
								}
							}
							if drop {
								continue
							}
						}
						rest = append(rest, b)
					}
					if absorbed {
						changed = true
						continue
					}
					if len(rest) != len(a.Args) {
						changed = true
						if len(rest) == 0 {
							return c.Const(w, zero)
						}
						na = append(na, c.andOr(dual, rest...))
						continue
					}
				}
				na = append(na, a)
			}
			if changed {
				if len(na) == 0 {
					return c.Const(w, unit)
				}
				return c.andOr(op, append(na, c.Const(w, k))...)
			}
		}
	}
	if len(args) == 0 {
		return c.Const(w, k)
	}
	if k != unit {
		if len(args) == 1 {
			a := args[0]
			if isConstIte(a) {
				if op == OAnd {
					return c.Ite(a.Args[0], c.Const(w, a.Args[1].A&k), c.Const(w, a.Args[2].A&k))
				}
				return c.Ite(a.Args[0], c.Const(w, a.Args[1].A|k), c.Const(w, a.Args[2].A|k))
			}
		}
		if op == OAnd && maskRuns(k, w) <= 4 {
			// and with a mask of few runs: cut out the runs
			inner := c.andOr(op, args...)
			var pieces []*Term // MSB first
			i := int(w) - 1
			for i >= 0 {
				b := (k >> uint(i)) & 1
				j := i
				for j >= 0 && (k>>uint(j))&1 == b {
					j--
				}
				if b == 0 {
					pieces = append(pieces, c.Const(uint8(i-j), 0))
				} else {
					pieces = append(pieces, c.Extract(inner, uint8(i), uint8(j+1)))
				}
				i = j
			}
			return c.Concat(pieces...)
		}
		args = append(args, c.Const(w, k))
		byID(args)
	}
	if len(args) == 1 {
		return args[0]
	}
	if op == OOr {
		if d := c.tryDisjoint(args); d != nil {
			return d
		}
	}
	return c.mk(op, w, 0, 0, "", args, nil)
}

func (c *Ctx) And(xs ...*Term) *Term {
	if len(xs) == 0 {
		return c.True()
	}
	return c.andOr(OAnd, xs...)
}
func (c *Ctx) Or(xs ...*Term) *Term {
	if len(xs) == 0 {
		return c.False()
	}
	return c.andOr(OOr, xs...)
}

func (c *Ctx) xor_(xs ...*Term) *Term {
	w := xs[0].W
	k := uint64(0)
	cnt := map[*Term]int{}
	var args []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.W != w {
			panic("width mismatch in xor")
		}
		switch t.Op {
		case OXor:
			for _, a := range t.Args {
				add(a)
			}
		case OConst:
			k ^= t.A
		case ONot:
			k ^= Mask(w)
			add(t.Args[0])
		default:
			if cnt[t] == 0 {
				args = append(args, t)
			}
			cnt[t]++
		}
	}
	for _, x := range xs {
		add(x)
	}
	out := args[:0:0]
	for _, a := range args {
		if cnt[a]&1 == 1 {
			out = append(out, a)
		}
	}
	args = out
	k &= Mask(w)
	if len(args) == 0 {
		return c.Const(w, k)
	}
	byID(args)
	if k != 0 && k != Mask(w) {
		args = append(args, c.Const(w, k))
		if d := c.tryDisjoint(args); d != nil {
			return d
		}
		byID(args)
		return c.mk(OXor, w, 0, 0, "", args, nil)
	}
	var r *Term
	if len(args) == 1 {
		r = args[0]
	} else if d := c.tryDisjoint(args); d != nil {
		r = d
	} else {
		r = c.mk(OXor, w, 0, 0, "", args, nil)
	}
	if k != 0 {
		return c.Not(r)
	}
	return r
}

// lin builds a normalised linear sum.
func (c *Ctx) lin_(w uint8, k uint64, ts []*Term, cs []uint64) *Term {
	m := Mask(w)
	sum := map[*Term]uint64{}
	var order []*Term
	var add func(t *Term, co uint64)
	add = func(t *Term, co uint64) {
		if t.W != w {
			panic(fmt.Sprintf("width mismatch in add: %d vs %d", t.W, w))
		}
		switch t.Op {
		case OConst:
			k += t.A * co
		case OAdd:
			if c.SumCap > 0 && len(t.Args) > c.SumCap && len(ts) > 1 {
				// kept whole
				if _, ok := sum[t]; !ok {
					order = append(order, t)
				}
				sum[t] += co
				return
			}
			k += t.A * co
			for i, a := range t.Args {
				add(a, t.Coef[i]*co)
			}
		case ONot:
			// ~x = -x - 1
			if t.Args[0].Op == OAdd || len(ts) > 1 {
				k -= co
				add(t.Args[0], -co)
				return
			}
			fallthrough
		default:
			if _, ok := sum[t]; !ok {
				order = append(order, t)
			}
			sum[t] += co
		}
	}
	for i, t := range ts {
		add(t, cs[i])
	}
	k &= m
	var args []*Term
	for _, t := range order {
		if sum[t]&m != 0 {
			args = append(args, t)
		}
	}
	if len(args) == 0 {
		return c.Const(w, k)
	}
	byID(args)
	coef := make([]uint64, len(args))
	allOne := true
	for i, t := range args {
		coef[i] = sum[t] & m
		if coef[i] != 1 {
			allOne = false
		}
	}
	if len(args) == 1 && coef[0] == 1 && k == 0 {
		return args[0]
	}
	if len(args) == 1 && w > 1 {
		a := args[0]
		if isConstIte(a) {
			return c.Ite(a.Args[0], c.Const(w, a.Args[1].A*coef[0]+k), c.Const(w, a.Args[2].A*coef[0]+k))
		}
		// single bit at a known position
		if a.Op == OConcat {
			var bit *Term
			pos, ok := uint8(0), true
			for _, s := range c.segs(a) {
				if s.t.IsConst() && s.t.A == 0 {
					continue
				}
				if bit != nil || s.w != 1 {
					ok = false
					break
				}
				bit, pos = s.t, s.lo
			}
			if ok && bit != nil {
				return c.Ite(bit, c.Const(w, (uint64(1)<<pos)*coef[0]+k), c.Const(w, k))
			}
		}
		// constant low bits: the constant only touches the rest
		if a.Op == OConcat && coef[0] == 1 {
			if l := a.Args[len(a.Args)-1]; l.IsConst() {
				lo := l.A + k&Mask(l.W)
				hi := c.Extract(a, w-1, l.W)
				hi = c.lin(w-l.W, k>>l.W+lo>>l.W, []*Term{hi}, []uint64{1})
				return c.Concat(hi, c.Const(l.W, lo))
			}
		}
		// power-of-two multiple
		if k == 0 && coef[0]&(coef[0]-1) == 0 {
			return c.ShlK(a, uint(bits.TrailingZeros64(coef[0])))
		}
	}
	if allOne && w > 1 {
		args2 := args
		if k != 0 {
			args2 = append(append([]*Term{}, args...), c.Const(w, k))
		}
		if d := c.tryDisjoint(args2); d != nil {
			return d
		}
	}
	if w == 1 {
		// addition modulo 2 is xor
		xs := append([]*Term{}, args...)
		if k != 0 {
			xs = append(xs, c.Const(1, 1))
		}
		return c.Xor(xs...)
	}
	return c.mk(OAdd, w, k, 0, "", args, coef)
}

func (c *Ctx) Add(xs ...*Term) *Term {
	cs := make([]uint64, len(xs))
	for i := range cs {
		cs[i] = 1
	}
	return c.lin(xs[0].W, 0, xs, cs)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	return c.lin(a.W, 0, []*Term{a, b}, []uint64{1, ^uint64(0)})
}
func (c *Ctx) Neg(a *Term) *Term { return c.lin(a.W, 0, []*Term{a}, []uint64{^uint64(0)}) }

func (c *Ctx) mul_(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		return c.lin(a.W, 0, []*Term{a}, []uint64{b.A})
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OMul, a.W, 0, 0, "", []*Term{a, b}, nil)
}

func sx(v uint64, w uint8) int64 { return int64(v<<(64-w)) >> (64 - w) }

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := Mask(w)
	switch op {
	case OMul:
		return a * b & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("evalBin")
}

func (c *Ctx) bin_(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic("width mismatch in " + opName[op])
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, evalBin(op, a.W, a.A, b.A))
	}
	if b.IsConst() {
		switch op {
		case OShl:
			return c.ShlK(a, uint(min(b.A, 64)))
		case OLShr:
			return c.LShrK(a, uint(min(b.A, 64)))
		case OAShr:
			k := uint8(min(b.A, uint64(a.W)-1))
			if k == 0 {
				return a
			}
			return c.SExt(c.Extract(a, a.W-1, k), a.W)
		case OUDiv:
			if b.A != 0 && b.A&(b.A-1) == 0 {
				return c.LShrK(a, uint(bits.TrailingZeros64(b.A)))
			}
		case OURem:
			if b.A != 0 && b.A&(b.A-1) == 0 {
				return c.And(a, c.Const(a.W, b.A-1))
			}
		case OSRem, OSDiv:
			// non-negative dividend: same as unsigned
			if b.A != 0 && sx(b.A, a.W) > 0 && c.topZero(a) {
				if op == OSRem {
					return c.Bin(OURem, a, b)
				}
				return c.Bin(OUDiv, a, b)
			}
		}
	}
	return c.mk(op, a.W, 0, 0, "", []*Term{a, b}, nil)
}

// topZero reports whether the most significant bit is syntactically zero.
func (c *Ctx) topZero(a *Term) bool {
	t := c.Extract(a, a.W-1, a.W-1)
	return t.IsFalse()
}

func (c *Ctx) shlK_(a *Term, k uint) *Term {
	if k == 0 {
		return a
	}
	if k >= uint(a.W) {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Extract(a, a.W-1-uint8(k), 0), c.Const(uint8(k), 0))
}
func (c *Ctx) lshrK_(a *Term, k uint) *Term {
	if k == 0 {
		return a
	}
	if k >= uint(a.W) {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Const(uint8(k), 0), c.Extract(a, a.W-1, uint8(k)))
}

func (c *Ctx) rotl_(a *Term, k uint) *Term {
	k %= uint(a.W)
	if k == 0 {
		return a
	}
	return c.Concat(c.Extract(a, a.W-1-uint8(k), 0), c.Extract(a, a.W-1, a.W-uint8(k)))
}

// mkRotl keeps constants outside of rotations.
func (c *Ctx) mkRotl(x *Term, k uint64) *Term {
	switch x.Op {
	case ORotl:
		return c.Rotl(x.Args[0], uint(k+x.A))
	case ONot:
		return c.Not(c.Rotl(x.Args[0], uint(k)))
	case OXor:
		var rest []*Term
		var kc *Term
		for _, a := range x.Args {
			if a.IsConst() {
				kc = a
			} else {
				rest = append(rest, a)
			}
		}
		if kc != nil {
			return c.Xor(c.Rotl(c.Xor(rest...), uint(k)), c.Const(x.W, kc.A<<k|kc.A>>(uint64(x.W)-k)))
		}
	}
	return c.mk(ORotl, x.W, k, 0, "", []*Term{x}, nil)
}

func (c *Ctx) zext_(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return c.Extract(a, w-1, 0)
	}
	return c.Concat(c.Const(w-a.W, 0), a)
}

func (c *Ctx) sext_(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return c.Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return c.Const(w, uint64(sx(a.A, a.W)))
	}
	if a.W > 1 && c.topZero(a) {
		return c.ZExt(a, w)
	}
	if isConstIte(a) {
		return c.Ite(a.Args[0], c.SExt(a.Args[1], w), c.SExt(a.Args[2], w))
	}
	return c.mk(OSExt, w, 0, 0, "", []*Term{a}, nil)
}

func (c *Ctx) extract_(a *Term, hi, lo uint8) *Term {
	if hi >= a.W || lo > hi {
		panic(fmt.Sprintf("bad extract [%d:%d] of width %d", hi, lo, a.W))
	}
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	if a.Op == OConst {
		return c.Const(w, a.A>>lo)
	}
	k := exKey{a.ID, hi, lo}
	if r, ok := c.exMemo[k]; ok {
		return r
	}
	r := c.extract(a, hi, lo, w)
	c.exMemo[k] = r
	return r
}

type exKey struct {
	id     int32
	hi, lo uint8
}

func (c *Ctx) extract(a *Term, hi, lo, w uint8) *Term {
	switch a.Op {
	case OExtract:
		return c.Extract(a.Args[0], hi+uint8(a.B), lo+uint8(a.B))
	case OConcat:
		var pieces []*Term // LSB first
		pos := uint8(0)
		for i := len(a.Args) - 1; i >= 0; i-- {
			p := a.Args[i]
			plo, phi := pos, pos+p.W-1
			pos += p.W
			if phi < lo || plo > hi {
				continue
			}
			l, h := uint8(0), p.W-1
			if lo > plo {
				l = lo - plo
			}
			if hi < phi {
				h = hi - plo
			}
			pieces = append(pieces, c.Extract(p, h, l))
		}
		for i, j := 0, len(pieces)-1; i < j; i, j = i+1, j-1 {
			pieces[i], pieces[j] = pieces[j], pieces[i]
		}
		return c.Concat(pieces...)
	case OSExt:
		in := a.Args[0]
		if hi < in.W {
			return c.Extract(in, hi, lo)
		}
		if lo == 0 {
			return c.SExt(in, w)
		}
	case OAdd:
		if lo == 0 {
			ts := make([]*Term, len(a.Args))
			cs := make([]uint64, len(a.Args))
			simple := true
			for i, x := range a.Args {
				ts[i] = c.Extract(x, hi, 0)
				cs[i] = a.Coef[i]
				if ts[i].Op == OExtract && ts[i].Args[0] == x {
					simple = false
				}
			}
			if simple {
				return c.lin(w, a.A&Mask(w), ts, cs)
			}
		}
	case OAnd, OOr, OXor, ONot:
		if w == 1 || pieceable(a) {
			xs := make([]*Term, len(a.Args))
			for i, x := range a.Args {
				xs[i] = c.Extract(x, hi, lo)
			}
			switch a.Op {
			case OAnd:
				return c.And(xs...)
			case OOr:
				return c.Or(xs...)
			case OXor:
				return c.Xor(xs...)
			default:
				return c.Not(xs[0])
			}
		}
	case OIte:
		if w == 1 || a.Args[1].IsConst() || a.Args[2].IsConst() {
			return c.Ite(a.Args[0], c.Extract(a.Args[1], hi, lo), c.Extract(a.Args[2], hi, lo))
		}
	}
	return c.mk(OExtract, w, uint64(hi), uint64(lo), "", []*Term{a}, nil)
}

// pieceable: bitwise operation over operands that all split syntactically.
func pieceable(a *Term) bool {
	for _, x := range a.Args {
		if x.Op != OConst && x.Op != OConcat {
			return false
		}
	}
	return true
}

func (c *Ctx) concat_(ps ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.Op == OConcat {
			for _, a := range t.Args {
				push(a)
			}
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.IsConst() && t.IsConst() && int(p.W)+int(t.W) <= 64 {
				out[n-1] = c.Const(p.W+t.W, p.A<<t.W|t.A)
				return
			}
			// adjacent extracts of the same term
			if p.Op == OExtract && t.Op == OExtract && p.Args[0] == t.Args[0] && p.B == t.A+1 {
				out[n-1] = c.Extract(p.Args[0], uint8(p.A), uint8(t.B))
				if out[n-1].Op == OConcat {
					l := out[n-1]
					out = out[:n-1]
					push(l)
				}
				return
			}
			// an extract followed by the (rewritten) next lower bits
			if p.Op == OExtract && !t.IsConst() && p.B >= uint64(t.W) && c.Extract(p.Args[0], uint8(p.B)-1, uint8(p.B)-t.W) == t {
				l := c.Extract(p.Args[0], uint8(p.A), uint8(p.B)-t.W)
				out = out[:n-1]
				push(l)
				return
			}
		}
		out = append(out, t)
	}
	for _, p := range ps {
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += int(p.W)
	}
	if w > 64 {
		panic("concat wider than 64")
	}
	if len(out) == 2 {
		var x *Term
		if p := out[0]; p.Op == OExtract && p.B == 0 && int(p.Args[0].W) == w && c.Extract(p.Args[0], uint8(w)-1, uint8(p.A)+1) == out[1] {
			x = p.Args[0]
		} else if p := out[1]; p.Op == OExtract && int(p.Args[0].W) == w && int(p.A) == w-1 && c.Extract(p.Args[0], uint8(p.B)-1, 0) == out[0] {
			x = p.Args[0]
		}
		if x != nil {
			k := uint64(out[1].W)
			return c.mkRotl(x, k)
		}
	}
	return c.mk(OConcat, uint8(w), 0, 0, "", out, nil)
}

func (c *Ctx) ite_(cond, a, b *Term) *Term {
	if cond.W != 1 || a.W != b.W {
		panic(fmt.Sprintf("ite width %d %d %d", cond.W, a.W, b.W))
	}
	if cond.IsConst() {
		if cond.A == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.Op == ONot {
		return c.Ite(cond.Args[0], b, a)
	}
	if a.Op == OIte && a.Args[0] == cond {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == cond {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.W == 1 {
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
	}
	return c.mk(OIte, a.W, 0, 0, "", []*Term{cond, a, b}, nil)
}

func (c *Ctx) eq_(a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a == b {
		return c.True()
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.A == b.A)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.W == 1 {
		if b.IsConst() {
			if b.A == 1 {
				return a
			}
			return c.Not(a)
		}
		return c.Not(c.Xor(a, b))
	}
	if b.IsConst() {
		k := b.A
		switch a.Op {
		case OConcat:
			var cs []*Term
			for _, s := range c.segs(a) {
				cs = append(cs, c.Eq(s.t, c.Const(s.w, k>>s.lo)))
			}
			return c.And(cs...)
		case OIte:
			if a.Args[1].IsConst() || a.Args[2].IsConst() {
				return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
			}
		case OOr:
			if k == 0 {
				var cs []*Term
				for _, x := range a.Args {
					cs = append(cs, c.Eq(x, c.Const(x.W, 0)))
				}
				return c.And(cs...)
			}
		case OXor:
			if len(a.Args) == 2 {
				if k == 0 {
					return c.Eq(a.Args[0], a.Args[1])
				}
				for i := 0; i < 2; i++ {
					if a.Args[i].IsConst() {
						return c.Eq(a.Args[1-i], c.Const(a.W, a.Args[i].A^k))
					}
				}
			}
		case ONot:
			return c.Eq(a.Args[0], c.Const(a.W, ^k))
		case OAdd:
			if len(a.Args) == 1 && a.Coef[0] == 1 {
				return c.Eq(a.Args[0], c.Const(a.W, k-a.A))
			}
			if len(a.Args) == 2 && k == 0 && a.A == 0 {
				m := Mask(a.W)
				if a.Coef[0] == 1 && a.Coef[1] == m || a.Coef[0] == m && a.Coef[1] == 1 {
					return c.Eq(a.Args[0], a.Args[1])
				}
			}
		case OSExt:
			in := a.Args[0]
			kk := c.Const(in.W, k)
			if uint64(sx(kk.A, in.W))&Mask(a.W) != k {
				return c.False()
			}
			return c.Eq(in, kk)
		}
	}
	if a.Op == OConcat && b.Op == OConcat {
		// same split points: compare piecewise
		if len(a.Args) == len(b.Args) {
			same := true
			for i := range a.Args {
				if a.Args[i].W != b.Args[i].W {
					same = false
				}
			}
			if same {
				var cs []*Term
				for i := range a.Args {
					cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
				}
				return c.And(cs...)
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OEq, 1, 0, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) ult_(a, b *Term) *Term {
	if a.W != b.W {
		panic("ult width")
	}
	if a == b {
		return c.False()
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.A < b.A)
	}
	if b.IsConst() && b.A == 0 {
		return c.False()
	}
	if a.IsConst() && a.A == 0 {
		return c.Not(c.Eq(b, c.Const(b.W, 0)))
	}
	if b.IsConst() && b.A == 1 {
		return c.Eq(a, c.Const(a.W, 0))
	}
	if a.W == 1 {
		return c.And(c.Not(a), b)
	}
	// bounds from leading zeros
	if b.IsConst() {
		if lz := leadZeros(a); lz > 0 {
			if Mask(a.W-lz) < b.A {
				return c.True()
			}
			return c.Ult(c.Extract(a, a.W-1-lz, 0), c.Const(a.W-lz, b.A))
		}
	}
	if a.IsConst() {
		if lz := leadZeros(b); lz > 0 {
			if a.A >= Mask(b.W-lz) {
				return c.False()
			}
			return c.Ult(c.Const(b.W-lz, a.A), c.Extract(b, b.W-1-lz, 0))
		}
	}
	return c.mk(OUlt, 1, 0, 0, "", []*Term{a, b}, nil)
}

func leadZeros(a *Term) uint8 {
	if a.Op == OConcat && a.Args[0].IsConst() && a.Args[0].A == 0 {
		return a.Args[0].W
	}
	return 0
}

func (c *Ctx) slt_(a, b *Term) *Term {
	if a == b {
		return c.False()
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sx(a.A, a.W) < sx(b.A, b.W))
	}
	if a.W > 1 {
		az := leadZeros(a) > 0 || a.IsConst() && sx(a.A, a.W) >= 0
		bz := leadZeros(b) > 0 || b.IsConst() && sx(b.A, b.W) >= 0
		if az && bz {
			return c.Ult(a, b)
		}
		if az && b.IsConst() && sx(b.A, b.W) < 0 {
			return c.False()
		}
	}
	return c.mk(OSlt, 1, 0, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) UF(name string, w uint8, args ...*Term) *Term {
	if f := c.UFEval[name]; f != nil {
		all := true
		vs := make([]uint64, len(args))
		for i, a := range args {
			if !a.IsConst() {
				all = false
				break
			}
			vs[i] = a.A
		}
		if all {
			return c.Const(w, f(vs))
		}
	}
	return c.mk(OUF, w, 0, 0, name, append([]*Term{}, args...), nil)
}

// Rebuild applies the constructor for t's operator to new arguments.
func (c *Ctx) Rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.Args[i] {
			same = false
			break
		}
	}
	if same {
		return t
	}
	switch t.Op {
	case ONot:
		return c.Not(args[0])
	case OAnd:
		return c.And(args...)
	case OOr:
		return c.Or(args...)
	case OXor:
		return c.Xor(args...)
	case OAdd:
		return c.lin(t.W, t.A, args, t.Coef)
	case OMul:
		return c.Mul(args[0], args[1])
	case OUDiv, OURem, OSDiv, OSRem, OShl, OLShr, OAShr:
		return c.Bin(t.Op, args[0], args[1])
	case ORotl:
		return c.Rotl(args[0], uint(t.A))
	case OConcat:
		return c.Concat(args...)
	case OExtract:
		return c.Extract(args[0], uint8(t.A), uint8(t.B))
	case OSExt:
		return c.SExt(args[0], t.W)
	case OIte:
		return c.Ite(args[0], args[1], args[2])
	case OEq:
		return c.Eq(args[0], args[1])
	case OUlt:
		return c.Ult(args[0], args[1])
	case OSlt:
		return c.Slt(args[0], args[1])
	case OUF:
		return c.UF(t.Name, t.W, args...)
	}
	return t
}

// EvalNode computes t from the values of its arguments.
func (c *Ctx) EvalNode(t *Term, v func(*Term) uint64) uint64 {
	m := Mask(t.W)
	switch t.Op {
	case OConst:
		return t.A
	case ONot:
		return ^v(t.Args[0]) & m
	case OAnd:
		r := m
		for _, a := range t.Args {
			r &= v(a)
		}
		return r
	case OOr:
		r := uint64(0)
		for _, a := range t.Args {
			r |= v(a)
		}
		return r
	case OXor:
		r := uint64(0)
		for _, a := range t.Args {
			r ^= v(a)
		}
		return r
	case OAdd:
		r := t.A
		for i, a := range t.Args {
			r += t.Coef[i] * v(a)
		}
		return r & m
	case OMul, OUDiv, OURem, OSDiv, OSRem, OShl, OLShr, OAShr:
		return evalBin(t.Op, t.W, v(t.Args[0]), v(t.Args[1]))
	case ORotl:
		x := v(t.Args[0])
		return (x<<t.A | x>>(uint64(t.W)-t.A)) & m
	case OConcat:
		r := uint64(0)
		for _, a := range t.Args {
			r = r<<a.W | v(a)
		}
		return r
	case OExtract:
		return v(t.Args[0]) >> t.B & m
	case OSExt:
		return uint64(sx(v(t.Args[0]), t.Args[0].W)) & m
	case OIte:
		if v(t.Args[0]) == 1 {
			return v(t.Args[1])
		}
		return v(t.Args[2])
	case OEq:
		if v(t.Args[0]) == v(t.Args[1]) {
			return 1
		}
		return 0
	case OUlt:
		if v(t.Args[0]) < v(t.Args[1]) {
			return 1
		}
		return 0
	case OSlt:
		if sx(v(t.Args[0]), t.Args[0].W) < sx(v(t.Args[1]), t.Args[1].W) {
			return 1
		}
		return 0
	case OUF:
		vs := make([]uint64, len(t.Args))
		for i, a := range t.Args {
			vs[i] = v(a)
		}
		if f := c.UFEval[t.Name]; f != nil {
			return f(vs) & m
		}
		h := uint64(0xabcdef)
		for i := 0; i < len(t.Name); i++ {
			h = mix(h, uint64(t.Name[i]))
		}
		for _, x := range vs {
			h = mix(h, x)
		}
		return (h ^ h>>32) & m
	}
	panic("eval: " + opName[t.Op])
}

// Eval computes the values of the given roots under env (variables by name).
// override, if not nil, fixes the value of particular nodes.
func (c *Ctx) Eval(roots []*Term, env func(*Term) uint64, override map[*Term]uint64) map[*Term]uint64 {
	val := map[*Term]uint64{}
	var stack []*Term
	for _, r := range roots {
		stack = append(stack, r)
		for len(stack) > 0 {
			t := stack[len(stack)-1]
			if _, ok := val[t]; ok {
				stack = stack[:len(stack)-1]
				continue
			}
			if override != nil {
				if x, ok := override[t]; ok {
					val[t] = x
					continue
				}
			}
			if t.Op == OVar {
				val[t] = env(t) & Mask(t.W)
				continue
			}
			ready := true
			for _, a := range t.Args {
				if _, ok := val[a]; !ok {
					stack = append(stack, a)
					ready = false
				}
			}
			if ready {
				val[t] = c.EvalNode(t, func(a *Term) uint64 { return val[a] })
			}
		}
	}
	return val
}

// Cone returns all nodes reachable from roots in topological (ID) order.
func Cone(roots []*Term, stop func(*Term) bool) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var stack []*Term
	for _, r := range roots {
		if !seen[r] {
			seen[r] = true
			stack = append(stack, r)
		}
	}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		out = append(out, t)
		if stop != nil && stop(t) {
			continue
		}
		for _, a := range t.Args {
			if !seen[a] {
				seen[a] = true
				stack = append(stack, a)
			}
		}
	}
	byID(out)
	return out
}

func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		return fmt.Sprintf("0x%x:%d", t.A, t.W)
	case OVar:
		return t.Name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.ID)
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.Op])
	if t.Op == OUF {
		sb.WriteString(":" + t.Name)
	}
	if t.Op == OExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.A, t.B)
	}
	if t.Op == ORotl || t.Op == OAdd && t.A != 0 {
		fmt.Fprintf(&sb, "[0x%x]", t.A)
	}
	for i, a := range t.Args {
		sb.WriteString(" ")
		if t.Op == OAdd && t.Coef[i] != 1 {
			fmt.Fprintf(&sb, "0x%x*", t.Coef[i])
		}
		sb.WriteString(a.str(d - 1))
	}
	sb.WriteString(")")
	return sb.String()
}
