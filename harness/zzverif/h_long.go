package zzverif

import "github.com/pjbgf/sha1cd"

// Big is an input of any size. Natively it is mostly zero, with other bytes
// near its ends and near powers of two.
func Big(name string, n int) []byte {
	b := make([]byte, n)
	x := uint32(2463534242)
	fill := func(lo, hi int) {
		for i := max(lo, 0); i < min(hi, n); i++ {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			b[i] = byte(x)
		}
	}
	fill(n-5000, n)
	fill(0, 5000)
	for k := 4096; k > 0 && k < n; k *= 2 {
		fill(k-300, k+300)
	}
	return b
}

var _ = reg("hLong", hLong)

// hLong: one long write into an arbitrary state against the same bytes in
// several writes cut at given places.
func hLong() {
	nx := P("nx")
	d, h, x, n, col := symState("", nx)
	e := newHash()
	e.UnmarshalBinary(blobC(h, x, n, col))
	l := P("len")<<20 + P("add")
	data := Big("m", l)
	nn, err := d.Write(data)
	Assert("C18.long-written", nn == l && err == nil)
	rest := data
	for _, k := range [4]int{P("a"), P("b"), P("c") << 20, P("e") << 20} {
		if k > 0 && k < len(rest) {
			nn, err := e.Write(rest[:k])
			Assert("C18.long-piece", nn == k && err == nil)
			rest = rest[k:]
		}
	}
	e.Write(rest)
	s1, s2 := stateOf(d), stateOf(e)
	Assert("C09.long-state", same(s1, s2))
	// length and pending bytes as documented
	n += uint64(l)
	r := int(n & 63)
	ok := true
	for i := 0; i < 8; i++ {
		ok = ok && s1[90+i] == byte(n>>(8*uint(7-i)))
	}
	Assert("C09+C15+C18.long-length", ok)
	for i := 0; i < 64; i++ {
		w := byte(0)
		if i < r {
			w = data[l-r+i]
		}
		ok = ok && s1[26+i] == w
	}
	Assert("C09+C15.long-pending", ok)
	t1, c1 := d.CollisionResistantSum(nil)
	t2, c2 := e.CollisionResistantSum(nil)
	Assert("C09+C15.long-sum", same(t1, t2))
	Assert("C09.long-verdict", c1 == c2)
	if nx < 0 {
		s, c := sha1cd.Sum(data)
		Assert("C09.long-oneshot", same(s[:], t1) && c == c1)
	}
}
