//go:build zzcgo

package zzverif

import (
	"hash"

	cgo "github.com/pjbgf/sha1cd/cgo"
)

type cgoHash interface {
	hash.Hash
	CollisionResistantSum([]byte) ([]byte, bool)
}

func cgoNew() cgoHash { return cgo.New().(cgoHash) }

var _ = reg("hCgoStream", hCgoStream)

// hCgoStream: a message written to the cgo package's hash in up to four
// pieces, with a sum in the middle, against the Go package's hash.
func hCgoStream() {
	lens := [4]int{P("a"), P("b"), P("c"), P("e")}
	total := 0
	for _, l := range lens {
		total += l
	}
	data := Bytes("m", total)
	var want []byte
	var wantC bool
	if P("self") == 0 {
		ref := newHash()
		ref.Write(data)
		want, wantC = ref.CollisionResistantSum(nil)
	} else { // against the same package's one-shot function
		want, wantC = cgo.Sum(append([]byte{}, data...))
	}
	d := cgoNew()
	if P("dirty") > 0 { // an earlier message, then Reset
		d.Write(Bytes("g", P("dirty")))
		if P("dsum") > 0 {
			d.Sum(nil)
		}
		d.Reset()
	}
	off := 0
	for i, l := range lens {
		p := make([]byte, l)
		copy(p, data[off:off+l])
		nn, err := d.Write(p)
		Assert("cgo.written", nn == l && err == nil)
		Assert("cgo.arg-kept", same(p, data[off:off+l]))
		scribble(p)
		off += l
		if i == P("at") {
			d.Sum(nil)
			d.CollisionResistantSum(nil)
		}
	}
	in := Bytes("in", P("pre"))
	keep := append([]byte{}, in...)
	s := d.Sum(in)
	Assert("cgo.sum", len(s) == len(in)+20 && same(s[:len(in)], keep) && same(s[len(in):], want))
	s2, c2 := d.CollisionResistantSum(nil)
	Assert("cgo.sum2", same(s2, want))
	Assert("cgo.verdict", c2 == wantC)
	Assert("cgo.sizes", d.Size() == 20 && d.BlockSize() == 64)
	one, c1 := cgo.Sum(data)
	Assert("cgo.oneshot", same(one, want))
	Assert("cgo.oneshot-verdict", c1 == wantC)
	Observe("sum", s2)
	Cover("flagged", c2)
}

var _ = reg("hCgoMask", hCgoMask)

// hCgoMask: the cgo package's filter on an arbitrary expanded block.
func hCgoMask() {
	var w, keep [80]uint32
	for i := range w {
		w[i] = U32("w" + itoa(i))
	}
	keep = w
	got := cgoMask(&w)
	Assert("C04.cgo-mask", got == specMask(&keep))
	Assert("C04.cgo-arg-kept", w == keep)
	Observe("mask", []byte{byte(got >> 24), byte(got >> 16), byte(got >> 8), byte(got)})
	Cover("bit0", got&1 != 0)
	Cover("bit31", got>>31 != 0)
}
