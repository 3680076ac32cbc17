//go:build zzcgostate && cgo

package zzverif

import (
	cgo "github.com/pjbgf/sha1cd/cgo"
)

var _ = reg("hCgoBlock", hCgoBlock)

// hCgoBlock: whole arbitrary blocks given to the C library from an arbitrary
// chaining value, against the published algorithm.
func hCgoBlock() {
	n := P("blocks")
	h := symH("h")
	p := Bytes("p", 64*n)
	d := cgoNew()
	cgo.ZZSet(d, h, 0, nil, 0)
	d.Write(p)
	got, total, flag := cgo.ZZGet(d)
	want, once := h, h
	col := false
	for i := 0; i < n; i++ {
		sp := specBlock(want, p[64*i:64*i+64])
		want = pick5(sp.col, sp.c3, sp.c1)
		col = col || sp.col
		once = specCompress(once, p[64*i:64*i+64])
	}
	Assert("C08+C02.block-verdict", (flag != 0) == col)
	Assert("C08+C03.block-state", eq5(got, want))
	Assert("C08+C01.block-sha1", flag != 0 || eq5(got, once))
	Assert("C08.block-count", total == uint64(64*n))
	var o [20]byte = beBytes(got)
	Observe("state", append(o[:], byte(flag)))
	Cover("flagged", flag != 0)
	Cover("clean", flag == 0)
}

var _ = reg("hCgoOps", hCgoOps)

// hCgoOps: from an arbitrary running state (chaining value, amount and content
// of the partial block, leftovers after it, total length, verdict so far), up
// to three writes with sums in between; every sum must be what the whole
// blocks of the padded stream give.
func hCgoOps() {
	nx := P("nx")
	lens := [3]int{P("a"), P("b"), P("c")}
	h := symH("h")
	buf := Bytes("x", 64)
	found := U32("found")
	Assume(found < 2)
	total0 := U64("n")<<6 | uint64(nx)
	d := cgoNew()
	cgo.ZZSet(d, h, total0, buf, int(found))
	stream := append([]byte{}, buf[:nx]...)
	total := total0
	check := func(id string) {
		// reference: the padded stream in whole blocks
		ref := cgoNew()
		cgo.ZZSet(ref, h, 0, nil, int(found))
		m := append([]byte{}, stream...)
		m = append(m, 0x80)
		for len(m)%64 != 56 {
			m = append(m, 0)
		}
		bits := total << 3
		for i := 7; i >= 0; i-- {
			m = append(m, byte(bits>>(8*uint(i))))
		}
		for i := 0; i < len(m); i += 64 {
			blk := append([]byte{}, m[i:i+64]...)
			ref.Write(blk)
		}
		wh, _, wf := cgo.ZZGet(ref)
		want := beBytes(wh)
		s, c := d.CollisionResistantSum(nil)
		Assert("C08+C15."+id+"-sum", same(s, want[:]))
		Assert("C08+C14."+id+"-verdict", c == (wf != 0))
		s2 := d.Sum(nil)
		Assert("C08+C15."+id+"-sum2", same(s2, want[:]))
		Observe(id, s)
	}
	for i, l := range lens {
		p := Bytes("p"+itoa(i), l)
		keep := append([]byte{}, p...)
		nn, err := d.Write(p)
		Assert("C08+C18.written", nn == l && err == nil)
		Assert("C08+C17.arg-kept", same(p, keep))
		scribble(p)
		stream = append(stream, keep...)
		total += uint64(l)
		if i == P("at") {
			check("mid")
		}
	}
	check("end")
	Cover("flagged", found == 1)
	// reset makes it fresh
	d.Reset()
	f := cgoNew()
	q := Bytes("q", P("q"))
	d.Write(q)
	f.Write(q)
	a, ac := d.CollisionResistantSum(nil)
	b, bc := f.CollisionResistantSum(nil)
	Assert("C08+C11.reset-sum", same(a, b))
	Assert("C08+C11.reset-verdict", ac == bc)
	one, oc := cgo.Sum(q)
	Assert("C08+C09.oneshot-sum", same(one, b))
	Assert("C08+C09.oneshot-verdict", oc == bc)
}
