//go:build zzcgohook

package cgo

// #include <stddef.h>
// #include <sha1.h>
// #include <ubc_check.h>
//
// static uintptr_t zz_ctx;
// static uint32_t zz_out[5];
// static int zz_hits;
//
// void zz_arm(uintptr_t ctx, uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint32_t e)
// {
//   zz_ctx = ctx;
//   zz_hits = 0;
//   zz_out[0] = a; zz_out[1] = b; zz_out[2] = c; zz_out[3] = d; zz_out[4] = e;
// }
// int zz_disarm(void) { zz_ctx = 0; return zz_hits; }
//
// void zz_ubc_check(const uint32_t W[80], uint32_t *mask)
// {
//   if (zz_ctx != 0 && (uintptr_t)W == zz_ctx + offsetof(SHA1_CTX, m1)) {
//     SHA1_CTX *ctx = (SHA1_CTX *)(void *)zz_ctx;
//     ctx->ihv[0] = zz_out[0];
//     ctx->ihv[1] = zz_out[1];
//     ctx->ihv[2] = zz_out[2];
//     ctx->ihv[3] = zz_out[3];
//     ctx->ihv[4] = zz_out[4];
//     zz_hits++;
//   }
//   ubc_check(W, mask);
// }
import "C"

import (
	"hash"
	"unsafe"
)

// ZZArm replaces the output that siblings are compared with, for blocks of h.
func ZZArm(h hash.Hash, o [5]uint32) {
	d := h.(*digest)
	C.zz_arm(C.uintptr_t(uintptr(unsafe.Pointer(&d.ctx))), C.uint32_t(o[0]), C.uint32_t(o[1]), C.uint32_t(o[2]), C.uint32_t(o[3]), C.uint32_t(o[4]))
}

// ZZDisarm ends that and tells how often it happened.
func ZZDisarm() int { return int(C.zz_disarm()) }
