package drive

import (
	"fmt"

	spec "verif/engine/refspec"
)

func putWords(m map[string]uint64, name string, b []byte) {
	for i := 0; i < len(b); i += 4 {
		w := uint32(0)
		for k := 0; k < 4; k++ {
			w <<= 8
			if i+k < len(b) {
				w |= uint32(b[i+k])
			}
		}
		m[fmt.Sprintf("%s.%d", name, i/4)] = uint64(w)
	}
}

func putH(m map[string]uint64, name string, h [5]uint32) {
	for i, v := range h {
		m[fmt.Sprint(name, i)] = uint64(v)
	}
}

// attackSeeds assign the published near-collision blocks to h*, p.*.
func attackSeeds() (out []map[string]uint64) {
	for a := range spec.Attacks {
		h, bs, _ := spec.AttackAt(a, 0)
		m := map[string]uint64{}
		putH(m, "h", h)
		putWords(m, "p", spec.Bytes(bs))
		o := spec.Compress(h, bs[0])
		putH(m, "H", o)
		out = append(out, m)
	}
	return
}

// again: some of the inputs to a hash that is flagged already.
func again(in []map[string]uint64) (out []map[string]uint64) {
	out = in
	for i, m := range in {
		if i%8 != 0 {
			continue
		}
		c := map[string]uint64{"was": 1}
		for k, v := range m {
			c[k] = v
		}
		out = append(out, c)
	}
	return
}

// streamSeeds place a flagged block at each whole-block position of a stream
// of nx pending bytes followed by total written ones.
func streamSeeds(tag string, nx, total int) (out []map[string]uint64) {
	for j := 0; 64*(j+1) <= nx+total && j < 4; j++ {
		for _, a := range []int{0, 3} {
			h, bs, ok := spec.AttackAt(a, j)
			if !ok {
				continue
			}
			s := spec.Bytes(bs)
			for len(s) < nx+total+3 {
				s = append(s, byte(0x30+len(s)))
			}
			m := map[string]uint64{}
			putH(m, tag+"h", h)
			putWords(m, tag+"x", s[:nx])
			putWords(m, tag+"m", s[nx:nx+total])
			m[tag+"col"] = 0
			out = append(out, m)
		}
	}
	return
}

// messageSeeds are whole attack messages in m.
func messageSeeds(total int) (out []map[string]uint64) {
	for a := range spec.Attacks {
		s := spec.Bytes(spec.Attacks[a])
		if len(s) > total {
			continue
		}
		for len(s) < total {
			s = append(s, byte(0x30+len(s)))
		}
		m := map[string]uint64{}
		putWords(m, "m", s)
		out = append(out, m)
	}
	return
}

// otherSeeds are whole attack messages in o, the message of another hash.
func otherSeeds(nb int) (out []map[string]uint64) {
	for a := range spec.Attacks {
		s := spec.Bytes(spec.Attacks[a])
		if len(s) > nb {
			continue
		}
		for len(s) < nb {
			s = append(s, byte(0x30+len(s)))
		}
		m := map[string]uint64{}
		putWords(m, "o", s)
		out = append(out, m)
	}
	return
}

// rng is a deterministic generator.
func rng(seed uint64) func() uint64 {
	return func() uint64 {
		seed += 0x9e3779b97f4a7c15
		x := seed
		x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
		x = (x ^ x>>27) * 0x94d049bb133111eb
		return x ^ x>>31
	}
}

// siblingSeeds give, for every vector, a block that meets its conditions and
// the output its sibling reaches (H*): the situation of a full collision.
func siblingSeeds(seed uint64) (out []map[string]uint64) {
	r := rng(seed)
	for k := 0; k < 32; k++ {
		b, ok := spec.CondBlock(k, -1, r)
		if ok {
			out = append(out, sibSeed(k, b, r))
		}
	}
	return
}

func sibSeed(k int, b spec.Block, r func() uint64) map[string]uint64 {
	var h [5]uint32
	for i := range h {
		h[i] = uint32(r())
	}
	_, o := spec.Sibling(k, h, b)
	m := map[string]uint64{}
	putH(m, "h", h)
	putWords(m, "p", spec.Bytes([]spec.Block{b}))
	putH(m, "H", o)
	return m
}

// missSeeds: blocks that meet all conditions of a vector but one.
func missSeeds(seed uint64, k int) (out []map[string]uint64) {
	r := rng(seed ^ 77)
	for s := 0; s < spec.NConds(k); s++ {
		if b, ok := spec.CondBlock(k, s, r); ok {
			out = append(out, sibSeed(k, b, r))
		}
	}
	return
}

// NamedSeeds is for the command line.
func NamedSeeds(n string) func(uint64) []map[string]uint64 {
	switch n {
	case "attack":
		return func(uint64) []map[string]uint64 { return attackSeeds() }
	case "pair":
		return func(s uint64) []map[string]uint64 { return pairSeeds(s, 0) }
	case "hook":
		return func(s uint64) []map[string]uint64 { return again(append(attackSeeds(), siblingSeeds(s)...)) }
	}
	return nil
}

// maskSeeds are whole expanded blocks: near misses of every vector.
func maskSeeds(seed uint64) (out []map[string]uint64) {
	r := rng(seed ^ 99)
	put := func(b spec.Block) {
		w := spec.Expand(b)
		m := map[string]uint64{}
		for i, v := range w {
			m[fmt.Sprint("w", i)] = uint64(v)
		}
		out = append(out, m)
	}
	for k := 0; k < 32; k++ {
		if b, ok := spec.CondBlock(k, -1, r); ok {
			put(b)
		}
	}
	return
}

// pairSeeds are blocks that meet the conditions of vector k.
func pairSeeds(seed uint64, k int) (out []map[string]uint64) {
	r := rng(seed ^ 55)
	for i := 0; i < 4; i++ {
		if b, ok := spec.CondBlock(k, -1, r); ok {
			out = append(out, sibSeed(k, b, r))
		}
	}
	return
}

// cgoSeeds: streamSeeds for a stream given in three inputs p0, p1, p2.
func cgoSeeds(nx, a, b, c int) (out []map[string]uint64) {
	total := a + b + c
	for j := 0; 64*(j+1) <= nx+total && j < 4; j++ {
		h, bs, ok := spec.AttackAt(0, j)
		if !ok {
			continue
		}
		s := spec.Bytes(bs)
		for len(s) < max(nx+total, 64) {
			s = append(s, byte(0x30+len(s)))
		}
		m := map[string]uint64{"found": 0, "n": uint64(j)}
		putH(m, "h", h)
		x := append(append([]byte{}, s[:nx]...), make([]byte, 64-nx)...)
		putWords(m, "x", x)
		s = s[nx:]
		putWords(m, "p0", s[:a])
		putWords(m, "p1", s[a:a+b])
		putWords(m, "p2", s[a+b:total])
		out = append(out, m)
	}
	return
}
