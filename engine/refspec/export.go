package zzverif

// Concrete access to the specification for the engine.

type Block = [16]uint32

func bytesOf(b Block) []byte {
	o := make([]byte, 64)
	for i, v := range b {
		o[4*i], o[4*i+1], o[4*i+2], o[4*i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	return o
}

// Process gives the chaining value after the block and whether it is flagged.
func Process(h [5]uint32, b Block) ([5]uint32, bool) {
	r := specBlock(h, bytesOf(b))
	return pick5(r.col, r.c3, r.c1), r.col
}

// Compress is the plain compression function.
func Compress(h [5]uint32, b Block) [5]uint32 { return specCompress(h, bytesOf(b)) }

// Sibling gives the chaining values of the sibling block under vector k.
func Sibling(k int, h [5]uint32, b Block) (in, out [5]uint32) {
	r := specBlock(h, bytesOf(b))
	st := r.s58
	if specDVs[k].t == 65 {
		st = r.s65
	}
	return specSibling(k, &r.w, st)
}

// Mask of the conditions met by a block.
func Mask(b Block) uint32 { w := specExpand(bytesOf(b)); return specMask(&w) }

// Init is the standard initial chaining value.
var Init = specInit

// NConds is the number of conditions of vector k.
func NConds(k int) int { return len(specConds[k]) }

// CondBlock finds a block that meets the conditions of vector k, except the
// one with index skip (skip < 0: all), by linear algebra; rnd fills the free
// bits.
func CondBlock(k, skip int, rnd func() uint64) (Block, bool) {
	// each expanded word bit as a linear form over the 512 message bits
	type row = [9]uint64 // 512 bits + constant
	var w [80][32]row
	for i := 0; i < 16; i++ {
		for p := 0; p < 32; p++ {
			n := 32*i + p
			w[i][p][n/64] |= 1 << (n % 64)
		}
	}
	for i := 16; i < 80; i++ {
		for p := 0; p < 32; p++ {
			q := (p + 31) % 32 // rotl by 1: bit p comes from bit p-1
			for x := 0; x < 9; x++ {
				w[i][p][x] = w[i-3][q][x] ^ w[i-8][q][x] ^ w[i-14][q][x] ^ w[i-16][q][x]
			}
		}
	}
	var rows []row
	for n, c := range specConds[k] {
		var r row
		for x := range r {
			r[x] = w[c.i][c.p][x] ^ w[c.j][c.q][x]
		}
		if c.v&1 == 1 {
			r[8] ^= 1
		}
		if n == skip {
			r[8] ^= 1
		}
		rows = append(rows, r)
	}
	get := func(r *row, n int) bool { return r[n/64]>>(n%64)&1 == 1 }
	var piv []int
	var red []row
	for _, r := range rows {
		for i, q := range red {
			if get(&r, piv[i]) {
				for x := range r {
					r[x] ^= q[x]
				}
			}
		}
		p := -1
		for n := 0; n < 512; n++ {
			if get(&r, n) {
				p = n
				break
			}
		}
		if p < 0 {
			if r[8]&1 == 1 {
				return Block{}, false
			}
			continue
		}
		for i := range red {
			if get(&red[i], p) {
				for x := range r {
					red[i][x] ^= r[x]
				}
			}
		}
		red = append(red, r)
		piv = append(piv, p)
	}
	var m row
	for x := 0; x < 8; x++ {
		m[x] = rnd()
	}
	for _, p := range piv {
		m[p/64] &^= 1 << (p % 64)
	}
	for i, r := range red {
		v := r[8] & 1
		for n := 0; n < 512; n++ {
			if n != piv[i] && get(&r, n) && get(&m, n) {
				v ^= 1
			}
		}
		if v == 1 {
			m[piv[i]/64] |= 1 << (piv[i] % 64)
		}
	}
	var b Block
	for i := range b {
		b[i] = uint32(m[i/2] >> (32 * (i % 2)))
	}
	return b, true
}

// AttackAt gives, for attack a, the chaining value j blocks before the
// flagged block and the blocks from there on.
func AttackAt(a, j int) (h [5]uint32, bs []Block, ok bool) {
	at := Attacks[a]
	if j >= len(at) {
		return
	}
	h = Init
	n := len(at) - 1 - j
	for i := 0; i < n; i++ {
		h = Compress(h, at[i])
	}
	return h, at[n:], true
}

// Bytes of a block in stream order.
func Bytes(bs []Block) (o []byte) {
	for _, b := range bs {
		o = append(o, bytesOf(b)...)
	}
	return
}

// Expand gives the 80 expanded words of a block.
func Expand(b Block) [80]uint32 { return specExpand(bytesOf(b)) }
