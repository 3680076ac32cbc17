//go:build zzhook

package zzverif

import "github.com/pjbgf/sha1cd"

var _ = reg("hHook", hHook)

// hHook: one block from an arbitrary chaining value, with the output that the
// sibling is compared to replaced by an arbitrary one. This frees the verdict
// from the (cryptographically unreachable) requirement of a real collision:
// the block must be flagged exactly if some vector's conditions hold and its
// sibling reaches that output.
func hHook() {
	h := symH("h")
	H := symH("H")
	p := Bytes("p", 64)
	setRegs()
	d := newHash()
	was := U8("was")&1 == 1 // flagged earlier
	err := d.UnmarshalBinary(blobC(h, nil, 0, was))
	Assert("restore-ok", err == nil)
	calls := 0
	sha1cd.ZZHook = func(m1 *[80]uint32, cs *[3][5]uint32, hh *[5]uint32) {
		*hh = H
		calls++
	}
	d.Write(p)
	sha1cd.ZZHook = nil
	st := stateOf(d)
	flag := st[5] == 2
	w := specExpand(p)
	s58 := specForward(h, &w, 0, 58)
	s65 := specForward(s58, &w, 58, 65)
	want := specDetect(&w, s58, s65, H)
	Assert("C02.verdict-hook", was || flag == want)
	Assert("C14.sticky-hook", !was || flag)
	raised := flag
	if was {
		raised = want
	}
	// two more compressions follow exactly if flagged, from the value that the
	// block function goes on with: the replaced one or its own
	c1 := specCompressW(h, &w)
	after := func(c [5]uint32) [5]uint32 { return pick5(raised, specCompressW(specCompressW(c, &w), &w), c) }
	got := hOf(st)
	Assert("C03.safe-hook", eq5(got, after(H)) || eq5(got, after(c1)))
	Cover("flagged", flag)
	Cover("clean", !flag)
	if flag {
		Observe("flag", []byte{1})
	} else {
		Observe("flag", []byte{0})
	}
}

var _ = reg("hPair", hPair)

// hPair: a block and its sibling under vector k, both through the real code:
// when the conditions of k hold, each is flagged when compared with the
// other's output.
func hPair() {
	k := P("k")
	h := symH("h")
	p := Bytes("p", 64)
	w := specExpand(p)
	st := specForward(h, &w, 0, int(specDVs[k].t))
	in, _ := specSibling(k, &w, st)
	dm := specDm(specDVs[k])
	q := make([]byte, 64)
	for i := range q {
		q[i] = byte((w[i/4] ^ dm[i/4]) >> (8 * uint(3-i%4)))
	}
	out1, _ := hooked(h, p, nil)
	out2, f2 := hooked(in, q, &out1)
	_, f1 := hooked(h, p, &out2)
	c := specCond(k, &w) == 1
	Assert("C20.first", !c || f1)
	Assert("C20.second", !c || f2)
	Cover("pair", c)
}

// hooked processes one block; it returns the output that the siblings are
// compared with (replaced by set, if given) and the verdict.
func hooked(h [5]uint32, p []byte, set *[5]uint32) (out [5]uint32, flag bool) {
	d := newHash()
	d.UnmarshalBinary(blob(h, nil, 0))
	first := true
	sha1cd.ZZHook = func(m1 *[80]uint32, cs *[3][5]uint32, hh *[5]uint32) {
		if !first {
			return
		}
		first = false
		out = *hh
		if set != nil {
			*hh = *set
		}
	}
	d.Write(p)
	sha1cd.ZZHook = nil
	return out, stateOf(d)[5] == 2
}
