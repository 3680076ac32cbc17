package zzverif

import (
	"encoding"

	"github.com/pjbgf/sha1cd"
)

const blobMagic = "shacd\x01"

// blob builds a saved state in the documented layout.
func blob(h [5]uint32, x []byte, n uint64) []byte {
	b := make([]byte, 0, 98)
	b = append(b, blobMagic...)
	hb := beBytes(h)
	b = append(b, hb[:]...)
	b = append(b, x...)
	for i := len(x); i < 64; i++ {
		b = append(b, 0)
	}
	for i := 7; i >= 0; i-- {
		b = append(b, byte(n>>(8*uint(i))))
	}
	return b
}

func symH(name string) (h [5]uint32) {
	h[0], h[1], h[2], h[3], h[4] = U32(name+"0"), U32(name+"1"), U32(name+"2"), U32(name+"3"), U32(name+"4")
	return
}

type hasher interface {
	sha1cd.CollisionResistantHash
	encoding.BinaryMarshaler
	encoding.BinaryUnmarshaler
}

func newHash() hasher { return sha1cd.New().(hasher) }

func stateOf(d hasher) []byte {
	b, err := d.MarshalBinary()
	Assert("save-ok", err == nil)
	return b
}

func hOf(state []byte) (h [5]uint32) {
	for i := range h {
		h[i] = uint32(state[6+4*i])<<24 | uint32(state[7+4*i])<<16 | uint32(state[8+4*i])<<8 | uint32(state[9+4*i])
	}
	return
}

var _ = reg("hBlock", hBlock)

// hBlock: one Write of n whole blocks from an arbitrary chaining value, each
// block arbitrary.
func hBlock() {
	n := P("blocks")
	h := symH("h")
	p := Bytes("p", 64*n)
	setRegs()
	d := newHash()
	err := d.UnmarshalBinary(blob(h, nil, 0))
	Assert("restore-ok", err == nil)
	d.Write(p)
	got := hOf(stateOf(d))
	_, flag := d.CollisionResistantSum(nil)
	want, once := h, h
	col := false
	for i := 0; i < n; i++ {
		sp := specBlock(want, p[64*i:64*i+64])
		want = pick5(sp.col, sp.c3, sp.c1)
		col = col || sp.col
		once = specCompress(once, p[64*i:64*i+64])
	}
	Assert("C02.verdict", flag == col)
	Assert("C03.safe", eq5(got, want))
	Assert("C01.sha1", flag || eq5(got, once))
	Observe("state", stateOf(d))
	Cover("flagged", flag)
	Cover("clean", !flag)
}
