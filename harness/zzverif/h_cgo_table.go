//go:build zzcgotab && cgo

package zzverif

import (
	cgo "github.com/pjbgf/sha1cd/cgo"
)

var _ = reg("hCgoTable", hCgoTable)

// hCgoTable: one entry of the C catalogue, any word.
func hCgoTable() {
	k, j := P("k"), int(U8("j"))
	Assume(j < 80)
	f := func(i int) uint32 { return cgo.ZZDv(k, i, 0) }
	dm := func(i int) uint32 { return cgo.ZZDv(k, 6, i) }
	if k == 32 { // the terminator
		Assert("C05.c-terminator", f(0) == 0 && f(1) == 0 && f(2) == 0 && f(3) == 0 && f(4) == 0 && f(5) == 0 && dm(j) == 0)
		return
	}
	v := specDVs[k]
	Assert("C05.c-vector", f(0) == v.typ && f(1) == v.k && f(2) == v.b)
	Assert("C05.c-mask-bit", f(4) == 0 && f(5) == uint32(k))
	Assert("C05.c-test-step", f(3) == v.t)
	want := specDm(v)
	Assert("C05.c-difference", dm(j) == want[j])
	w := dm(j)
	Observe("t", []byte{byte(f(3)), byte(f(1)), byte(w >> 24), byte(w >> 16), byte(w >> 8), byte(w)})
	Cover("last", j == 79)
}
