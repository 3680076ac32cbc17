//go:build zzcgohook && cgo

package zzverif

import (
	cgo "github.com/pjbgf/sha1cd/cgo"
)

var _ = reg("hCgoHook", hCgoHook)

// hCgoHook: one block given to the C library, with the output that the
// siblings are compared with replaced by an arbitrary value (see hHook).
func hCgoHook() {
	h := symH("h")
	H := symH("H")
	p := Bytes("p", 64)
	d := cgoNew()
	was := U32("was") & 1 // flagged earlier
	cgo.ZZSet(d, h, 0, nil, int(was))
	cgo.ZZArm(d, H)
	d.Write(p)
	Assume(cgo.ZZDisarm() == 1)
	got, _, f := cgo.ZZGet(d)
	flag := f != 0
	w := specExpand(p)
	s58 := specForward(h, &w, 0, 58)
	s65 := specForward(s58, &w, 58, 65)
	want := specDetect(&w, s58, s65, H)
	Assert("C08+C02.verdict-hook", was == 1 || flag == want)
	Assert("C08+C14.sticky-hook", was == 0 || flag)
	Assert("C08+C03.state-hook", eq5(got, pick5(want, specCompressW(specCompressW(H, &w), &w), H)))
	Cover("flagged", flag)
	Cover("clean", !flag)
	o := beBytes(got)
	Observe("flag", append(o[:], byte(f)))
}
