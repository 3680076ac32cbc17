package term

// Journal records the normaliser's steps, so that each can be put to the
// solver: constructor(arguments) was represented by result, given the steps
// taken on the way.
//
// A step is recorded where the result is not the plain node. Calls on
// constants alone (plain evaluation) are not recorded.
type Journal struct {
	frames [][]int32
	seen   map[jkey]int32
	Steps  []Step
}

type jkey struct {
	op   Op
	w    uint8
	a, b uint64
	h    uint64
	n    int
	r    int32
}

// Step is one claim: the (unnormalised) node equals the result.
type Step struct {
	Raw, Res *Term
	Used     []int32 // steps taken on the way
}

func NewJournal() *Journal { return &Journal{seen: map[jkey]int32{}} }

func (c *Ctx) top() bool {
	if c.J == nil {
		return false
	}
	j := c.J
	if n := len(j.frames); n < cap(j.frames) {
		j.frames = j.frames[:n+1]
		j.frames[n] = j.frames[n][:0]
	} else {
		j.frames = append(j.frames, nil)
	}
	return true
}

func (c *Ctx) done(op Op, w uint8, a, b uint64, args []*Term, coef []uint64, r *Term) *Term {
	j := c.J
	n := len(j.frames) - 1
	used := j.frames[n]
	j.frames = j.frames[:n]
	if r.Op == op && r.A == a && r.B == b && len(r.Args) == len(args) {
		same := true
		for i := range args {
			if args[i] != r.Args[i] {
				same = false
				break
			}
		}
		for i := range coef {
			if !same || coef[i]&Mask(w) != r.Coef[i] {
				same = false
				break
			}
		}
		if same {
			return r
		}
	}
	consts := true
	h := uint64(len(args))
	for i, x := range args {
		if x.Op != OConst {
			consts = false
		}
		h = mix(h, uint64(x.ID)+77)
		if coef != nil {
			h = mix(h, coef[i])
		}
	}
	if consts {
		return r
	}
	k := jkey{op, w, a, b, h, len(args), r.ID}
	id, ok := j.seen[k]
	if !ok {
		id = int32(len(j.Steps))
		j.seen[k] = id
		j.Steps = append(j.Steps, Step{&Term{ID: -1, Op: op, W: w, A: a, B: b, Args: append([]*Term(nil), args...), Coef: append([]uint64(nil), coef...)}, r, append([]int32(nil), used...)})
	}
	if n > 0 {
		j.frames[n-1] = append(j.frames[n-1], id)
	}
	return r
}

func clone(xs []*Term) []*Term { return append([]*Term(nil), xs...) }

func (c *Ctx) Not(x *Term) *Term {
	if !c.top() {
		return c.not_(x)
	}
	return c.done(ONot, x.W, 0, 0, []*Term{x}, nil, c.not_(x))
}

func (c *Ctx) andOr(op Op, xs ...*Term) *Term {
	if len(xs) < 2 || !c.top() {
		return c.andOr_(op, xs...)
	}
	k := clone(xs)
	return c.done(op, xs[0].W, 0, 0, k, nil, c.andOr_(op, xs...))
}

func (c *Ctx) Xor(xs ...*Term) *Term {
	if len(xs) < 2 || !c.top() {
		return c.xor_(xs...)
	}
	k := clone(xs)
	return c.done(OXor, xs[0].W, 0, 0, k, nil, c.xor_(xs...))
}

func (c *Ctx) lin(w uint8, k uint64, ts []*Term, cs []uint64) *Term {
	if len(ts) == 0 || !c.top() {
		return c.lin_(w, k, ts, cs)
	}
	kt, kc := clone(ts), append([]uint64(nil), cs...)
	return c.done(OAdd, w, k&Mask(w), 0, kt, kc, c.lin_(w, k, ts, cs))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if !c.top() {
		return c.mul_(a, b)
	}
	return c.done(OMul, a.W, 0, 0, []*Term{a, b}, nil, c.mul_(a, b))
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if !c.top() {
		return c.bin_(op, a, b)
	}
	return c.done(op, a.W, 0, 0, []*Term{a, b}, nil, c.bin_(op, a, b))
}

// a shift by 64 or more does not fit a constant of the operand's width
func (c *Ctx) ShlK(a *Term, k uint) *Term {
	if k >= uint(a.W) || !c.top() {
		return c.shlK_(a, k)
	}
	return c.done(OShl, a.W, 0, 0, []*Term{a, c.Const(a.W, uint64(k))}, nil, c.shlK_(a, k))
}

func (c *Ctx) LShrK(a *Term, k uint) *Term {
	if k >= uint(a.W) || !c.top() {
		return c.lshrK_(a, k)
	}
	return c.done(OLShr, a.W, 0, 0, []*Term{a, c.Const(a.W, uint64(k))}, nil, c.lshrK_(a, k))
}

func (c *Ctx) Rotl(a *Term, k uint) *Term {
	if k%uint(a.W) == 0 || !c.top() {
		return c.rotl_(a, k)
	}
	return c.done(ORotl, a.W, uint64(k)%uint64(a.W), 0, []*Term{a}, nil, c.rotl_(a, k))
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if w <= a.W || !c.top() {
		return c.zext_(a, w)
	}
	return c.done(OConcat, w, 0, 0, []*Term{c.Const(w-a.W, 0), a}, nil, c.zext_(a, w))
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if w <= a.W || !c.top() {
		return c.sext_(a, w)
	}
	return c.done(OSExt, w, 0, 0, []*Term{a}, nil, c.sext_(a, w))
}

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	if a.W == 1 || hi-lo+1 == a.W || !c.top() {
		return c.extract_(a, hi, lo)
	}
	return c.done(OExtract, hi-lo+1, uint64(hi), uint64(lo), []*Term{a}, nil, c.extract_(a, hi, lo))
}

func (c *Ctx) Concat(ps ...*Term) *Term {
	if len(ps) < 2 || !c.top() {
		return c.concat_(ps...)
	}
	k := clone(ps)
	r := c.concat_(ps...)
	return c.done(OConcat, r.W, 0, 0, k, nil, r)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if !c.top() {
		return c.ite_(cond, a, b)
	}
	return c.done(OIte, a.W, 0, 0, []*Term{cond, a, b}, nil, c.ite_(cond, a, b))
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if !c.top() {
		return c.eq_(a, b)
	}
	return c.done(OEq, 1, 0, 0, []*Term{a, b}, nil, c.eq_(a, b))
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if !c.top() {
		return c.ult_(a, b)
	}
	return c.done(OUlt, 1, 0, 0, []*Term{a, b}, nil, c.ult_(a, b))
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if !c.top() {
		return c.slt_(a, b)
	}
	return c.done(OSlt, 1, 0, 0, []*Term{a, b}, nil, c.slt_(a, b))
}
