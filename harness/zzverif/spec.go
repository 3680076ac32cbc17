package zzverif

// FIPS 180-4 SHA-1 and the counter-cryptanalysis detection algorithm, in the
// form of their definitions.

func rotl(x uint32, n uint) uint32 { return x<<n | x>>(32-n) }

func fk(t int, b, c, d uint32) (uint32, uint32) {
	switch {
	case t < 20:
		return (b & c) ^ (^b & d), 0x5a827999
	case t < 40:
		return b ^ c ^ d, 0x6ed9eba1
	case t < 60:
		return (b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc
	default:
		return b ^ c ^ d, 0xca62c1d6
	}
}

func specExpand(blk []byte) (w [80]uint32) {
	for t := 0; t < 16; t++ {
		w[t] = uint32(blk[4*t])<<24 | uint32(blk[4*t+1])<<16 | uint32(blk[4*t+2])<<8 | uint32(blk[4*t+3])
	}
	for t := 16; t < 80; t++ {
		w[t] = rotl(w[t-3]^w[t-8]^w[t-14]^w[t-16], 1)
	}
	return
}

// specForward applies steps from..to-1.
func specForward(s [5]uint32, w *[80]uint32, from, to int) [5]uint32 {
	a, b, c, d, e := s[0], s[1], s[2], s[3], s[4]
	for t := from; t < to; t++ {
		f, k := fk(t, b, c, d)
		tmp := rotl(a, 5) + f + e + k + w[t]
		e, d, c, b, a = d, c, rotl(b, 30), a, tmp
	}
	return [5]uint32{a, b, c, d, e}
}

// specBackward undoes steps from-1 .. 0.
func specBackward(s [5]uint32, w *[80]uint32, from int) [5]uint32 {
	a, b, c, d, e := s[0], s[1], s[2], s[3], s[4]
	for t := from - 1; t >= 0; t-- {
		pa, pb, pc, pd := b, rotl(c, 2), d, e
		f, k := fk(t, pb, pc, pd)
		pe := a - rotl(pa, 5) - f - k - w[t]
		a, b, c, d, e = pa, pb, pc, pd, pe
	}
	return [5]uint32{a, b, c, d, e}
}

func add5(x, y [5]uint32) [5]uint32 {
	for i := range x {
		x[i] += y[i]
	}
	return x
}

func eq5(x, y [5]uint32) bool {
	return (x[0]^y[0])|(x[1]^y[1])|(x[2]^y[2])|(x[3]^y[3])|(x[4]^y[4]) == 0
}

func specCompressW(h [5]uint32, w *[80]uint32) [5]uint32 { return add5(h, specForward(h, w, 0, 80)) }

func specCompress(h [5]uint32, blk []byte) [5]uint32 {
	w := specExpand(blk)
	return specCompressW(h, &w)
}

// specDm derives the expanded message difference of a vector from its
// definition as a disturbance vector.
func specDm(v dvDef) (dm [80]uint32) {
	var dd [5 + 80 + 16]uint32 // dd[5+i] = D[i]
	k := int(v.k)
	dd[5+k+15] = 1 << v.b
	if v.typ == 2 {
		dd[5+k+1] = rotl(1<<v.b, 31)
		dd[5+k+3] = rotl(1<<v.b, 31)
	}
	for i := k + 16; i < 80; i++ {
		dd[5+i] = rotl(dd[5+i-3]^dd[5+i-8]^dd[5+i-14]^dd[5+i-16], 1)
	}
	for i := k - 1; i >= -5; i-- {
		dd[5+i] = rotl(dd[5+i+16], 31) ^ dd[5+i+13] ^ dd[5+i+8] ^ dd[5+i+2]
	}
	for i := 0; i < 80; i++ {
		dm[i] = dd[5+i] ^ rotl(dd[5+i-1], 5) ^ dd[5+i-2] ^ rotl(dd[5+i-3], 30) ^ rotl(dd[5+i-4], 30) ^ rotl(dd[5+i-5], 30)
	}
	return
}

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

// specCond: 1 if all bit conditions of vector k hold for the expanded block.
func specCond(k int, w *[80]uint32) uint32 {
	r := uint32(1)
	for _, c := range specConds[k] {
		r &= (w[c.i]>>c.p ^ w[c.j]>>c.q ^ uint32(c.v) ^ 1) & 1
	}
	return r
}

func specMask(w *[80]uint32) uint32 {
	m := uint32(0)
	for k := 0; k < 32; k++ {
		m |= specCond(k, w) << uint(k)
	}
	return m
}

// specSibling recompresses the sibling block of vector k from the state at
// its test step and returns the resulting chaining value.
func specSibling(k int, w *[80]uint32, st [5]uint32) (in, out [5]uint32) {
	v := specDVs[k]
	dm := specDm(v)
	for i := range dm {
		dm[i] ^= w[i]
	}
	in = specBackward(st, &dm, int(v.t))
	return in, add5(in, specForward(st, &dm, int(v.t), 80))
}

// specDetect decides whether the block is a recognised near-collision block,
// given the expanded block, the states before steps 58 and 65 and the output.
func specDetect(w *[80]uint32, s58, s65, out [5]uint32) bool {
	r := uint32(0)
	for k := 0; k < 32; k++ {
		st := s58
		if specDVs[k].t == 65 {
			st = s65
		}
		_, o := specSibling(k, w, st)
		r |= specCond(k, w) & b2u(eq5(o, out))
	}
	return r != 0
}

type blockSpec struct {
	c1, c2, c3 [5]uint32
	s58, s65   [5]uint32
	w          [80]uint32
	col        bool
}

// specBlock is the whole per-block behaviour.
func specBlock(h [5]uint32, blk []byte) (r blockSpec) {
	r.w = specExpand(blk)
	r.s58 = specForward(h, &r.w, 0, 58)
	r.s65 = specForward(r.s58, &r.w, 58, 65)
	r.c1 = add5(h, specForward(r.s65, &r.w, 65, 80))
	r.col = specDetect(&r.w, r.s58, r.s65, r.c1)
	r.c2 = specCompressW(r.c1, &r.w)
	r.c3 = specCompressW(r.c2, &r.w)
	return
}

func pick5(c bool, a, b [5]uint32) [5]uint32 {
	if c {
		return a
	}
	return b
}

func beBytes(h [5]uint32) (o [20]byte) {
	for i, v := range h {
		o[4*i], o[4*i+1], o[4*i+2], o[4*i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	return
}

// same reports equality of two byte strings of the same length.
func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	d := byte(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

var specInit = [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
