//go:build zzcgostate

package cgo

import (
	"hash"
	"unsafe"
)

// A running state is what ZZSet sets. If there is more to one than when this
// was written, these do not compile, and the states are not used.
var _ [2400 - unsafe.Sizeof(digest{}.ctx)]byte
var _ [2424 - unsafe.Sizeof(digest{})]byte

func zzset32[T ~uint32](p *T, v uint32) { *p = T(v) }
func zzset64[T ~uint64](p *T, v uint64) { *p = T(v) }
func zzset8[T ~uint8](p *T, v byte)     { *p = T(v) }
func zzseti[T ~int32](p *T, v int)      { *p = T(v) }

// ZZSet puts a hash into a given running state.
func ZZSet(h hash.Hash, ihv [5]uint32, total uint64, buf []byte, found int) {
	d := h.(*digest)
	for i := range ihv {
		zzset32(&d.ctx.ihv[i], ihv[i])
	}
	zzset64(&d.ctx.total, total)
	for i := range buf {
		zzset8(&d.ctx.buffer[i], buf[i])
	}
	zzseti(&d.ctx.found_collision, found)
}

// ZZGet reads the running state.
func ZZGet(h hash.Hash) (ihv [5]uint32, total uint64, found int) {
	d := h.(*digest)
	for i := range ihv {
		ihv[i] = uint32(d.ctx.ihv[i])
	}
	return ihv, uint64(d.ctx.total), int(d.ctx.found_collision)
}
