//go:build zzasm

package zzverif

import (
	"unsafe"

	"github.com/pjbgf/sha1cd"
)

var _ = reg("hAsm", hAsm)

func words(b []byte, n int) []uint32 { return unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), n) }

func setRegs() {
	sha1cd.ZZRegs = Bytes("ra", P("regs"))
	sha1cd.ZZOdd = P("odd") == 1
}

// hAsm: the assembly block function, called directly with arbitrary register
// contents at both stack alignments, on memory with nothing around it. The
// new state depends on its inputs only.
func hAsm() {
	place, wplace := P("place"), P("place")
	if place == 2 {
		wplace = 3
	}
	n := P("n")
	var hs, m1s, css [3][]byte
	p := Guard("p", n, place)
	for i := 0; i < 3; i++ {
		hs[i] = Guard("h", 20, wplace)
		s := ""
		if i == 2 {
			s = "'"
		}
		m1s[i] = Guard("m1"+s, 320, wplace)
		css[i] = Guard("cs"+s, 60, wplace)
		regs := "ra"
		if i == 1 {
			regs = "rb"
		}
		sha1cd.ZZAsm(i == 1, Bytes(regs, P("regs")), words(hs[i], 5), p, words(m1s[i], 80), unsafe.Slice((*[5]uint32)(unsafe.Pointer(&css[i][0])), 3))
	}
	q := Bytes("p", n)
	Assert("input-kept", same(p, q))
	Assert("regs-state", same(hs[0], hs[1]))
	Assert("scratch-state", same(hs[0], hs[2]))
	Observe("h", hs[0])
	Observe("m1", m1s[0])
	Observe("cs", css[0])
}
