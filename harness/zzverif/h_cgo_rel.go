//go:build zzcgostate && cgo

package zzverif

import (
	"github.com/pjbgf/sha1cd"
	cgo "github.com/pjbgf/sha1cd/cgo"
)

// cgoAny is two cgo hashes in the same arbitrary running state (new ones if
// nx < 0): chaining value, buffer, total length and verdict so far are free.
func cgoAny(nx int) (d, e cgoHash) {
	d, e = cgoNew(), cgoNew()
	if nx < 0 {
		return
	}
	h := symH("h")
	buf := Bytes("x", 64)
	found := U32("found")
	Assume(found < 2)
	n := U64("n")<<6 | uint64(nx)
	cgo.ZZSet(d, h, n, buf, int(found))
	cgo.ZZSet(e, h, n, buf, int(found))
	Cover("flagged", found == 1)
	return
}

// cgoAlike requires that two cgo hashes cannot be told apart.
func cgoAlike(id string, d, e cgoHash, t []byte) {
	s1, c1 := d.CollisionResistantSum(nil)
	s2, c2 := e.CollisionResistantSum(nil)
	Assert(id+"-sum", same(s1, s2))
	Assert(id+"-verdict", c1 == c2)
	if len(t) > 0 {
		d.Write(t)
		e.Write(t)
		s1, c1 = d.CollisionResistantSum(nil)
		s2, c2 = e.CollisionResistantSum(nil)
		Assert(id+"-sum-after", same(s1, s2))
		Assert(id+"-verdict-after", c1 == c2)
	}
	Observe(id, s1)
}

var _ = reg("hCgoSplit", hCgoSplit)

// hCgoSplit: pieces against one piece.
func hCgoSplit() {
	d, e := cgoAny(P("nx"))
	lens := [3]int{P("a"), P("b"), P("c")}
	data := Bytes("m", lens[0]+lens[1]+lens[2])
	off := 0
	for _, l := range lens {
		nn, err := d.Write(append([]byte{}, data[off:off+l]...))
		Assert("C18.cgo-written", nn == l && err == nil)
		off += l
	}
	e.Write(data)
	cgoAlike("C09.cgo", d, e, nil)
	Assert("C18.cgo-size", d.Size() == 20 && d.BlockSize() == 64)
}

var _ = reg("hCgoSum", hCgoSum)

// hCgoSum: summing observes only.
func hCgoSum() {
	d, e := cgoAny(P("nx"))
	m := Bytes("m", P("a"))
	d.Write(m)
	e.Write(m)
	pre, spare := P("pre"), P("spare")
	in := make([]byte, pre, pre+spare)
	copy(in, Bytes("in", pre))
	keep := append([]byte{}, in...)
	NoWrites("C10.cgo-no-writes")
	AllowWrite(in)
	s1, c := d.CollisionResistantSum(in)
	EndWrites()
	r1 := append([]byte{}, s1...)
	NoWrites("C10.cgo-no-writes")
	AllowWrite(in)
	s2 := d.Sum(in)
	EndWrites()
	Assert("C10.cgo-prefix", len(r1) == pre+20 && same(r1[:pre], keep) && same(in, keep))
	Assert("C10.cgo-agree", same(r1, s2))
	Assert("C18.cgo-sum-size", len(r1) == pre+20 && len(s2) == pre+20)
	scribble(s1)
	scribble(s2)
	w, wc := e.CollisionResistantSum(nil)
	Assert("C10.cgo-again", same(r1[len(r1)-20:], w) && c == wc)
	Assert("C14.cgo-again", c == wc)
	cgoAlike("C10.cgo-after", d, e, Bytes("t", P("t")))
	Conc("C10.cgo-concurrent", func() {
		d.Sum(nil)
		d.CollisionResistantSum(nil)
		d.Size()
		d.BlockSize()
	})
}

var _ = reg("hCgoReset", hCgoReset)

// hCgoReset: any history, Reset: as new.
func hCgoReset() {
	d, _ := cgoAny(P("nx"))
	d.Write(Bytes("m", P("a")))
	if P("sum") > 0 {
		d.Sum(nil)
	}
	d.Reset()
	s, c := d.CollisionResistantSum(nil)
	Assert("C11.cgo-no-verdict", !c)
	Assert("C14.cgo-reset", !c)
	Assert("C11.cgo-empty", same(s, []byte("\xda\x39\xa3\xee\x5e\x6b\x4b\x0d\x32\x55\xbf\xef\x95\x60\x18\x90\xaf\xd8\x07\x09")))
	cgoAlike("C11.cgo", d, cgoNew(), Bytes("t", P("b")))
	d.Reset()
	cgoAlike("C11.cgo-twice", d, cgoNew(), Bytes("u", P("c")))
}

var _ = reg("hCgoIsolated", hCgoIsolated)

// hCgoIsolated: what one hash does is invisible to another.
func hCgoIsolated() {
	na, nb := P("a"), P("b")
	m, o := Bytes("m", na), Bytes("o", nb)
	ref := cgoNew()
	ref.Write(m)
	want, wantC := ref.CollisionResistantSum(nil)
	e, _ := cgoAny(P("nx"))
	d := cgoNew()
	e.Write(o)
	d.Write(m[:na/2])
	e.Sum(nil)
	e.Write(o)
	f := cgoNew()
	f.Write(o)
	f.CollisionResistantSum(nil)
	d.Write(m[na/2:])
	e.Reset()
	cgo.Sum(o)
	f.Reset()
	s, c := d.CollisionResistantSum(nil)
	Assert("C16.cgo-sum", same(s, want))
	Assert("C16+C14.cgo-verdict", c == wantC)
	s2, c2 := cgo.Sum(m)
	Assert("C16.cgo-oneshot", same(s2, want) && c2 == wantC)
	Assert("C14.cgo-oneshot", c2 == wantC)
	mm := append([]byte{}, m...)
	Conc("C16.cgo-no-shared-writes", func() {
		g := cgo.New().(cgoHash)
		g.Write(mm)
		g.CollisionResistantSum(nil)
		g.Sum(nil)
		g.Reset()
		cgo.Sum(mm)
	})
	Observe("sum", s)
}

var _ = reg("hCgoBuffers", hCgoBuffers)

// hCgoBuffers: caller-owned memory is only read, and only during the call.
func hCgoBuffers() {
	na := P("a")
	d, e := cgoAny(P("nx"))
	big := Bytes("m", na+16)
	keep := append([]byte{}, big...)
	d.Write(big[8 : 8+na : 12+na])
	Assert("C17.cgo-write-arg", same(big, keep))
	scribble(big)
	e.Write(keep[8 : 8+na])
	s, _ := d.CollisionResistantSum(nil)
	w, _ := e.CollisionResistantSum(nil)
	Assert("C17.cgo-write-retained", same(s, w))
	k1 := append([]byte{}, s...)
	s2 := d.Sum(nil)
	d.Write(keep[:5])
	d.Sum(nil)
	d.Reset()
	d.Sum(nil)
	Assert("C17.cgo-sum-kept", same(s, k1) && same(s2, k1))
	q := append([]byte{}, keep...)
	NoWritesTo("C17.cgo-arg-written", q)
	cgoNew().Write(q)
	one, _ := cgo.Sum(q)
	EndWrites()
	k2 := append([]byte{}, one...)
	cgo.Sum(keep[:na])
	cgoNew().Write(keep)
	Assert("C17.cgo-oneshot-kept", same(one, k2))
	Observe("sum", k1)
}

var _ = reg("hCgoLong", hCgoLong)

// hCgoLong: one long write against the same bytes in several.
func hCgoLong() {
	d, e := cgoAny(P("nx"))
	l := P("len")<<20 + P("add")
	data := Big("m", l)
	nn, err := d.Write(data)
	Assert("C18.cgo-long-written", nn == l && err == nil)
	rest := data
	for _, k := range [3]int{P("a"), P("b"), P("c")} {
		if k > 0 && k < len(rest) {
			e.Write(rest[:k])
			rest = rest[k:]
		}
	}
	e.Write(rest)
	cgoAlike("C08+C09.cgo-long", d, e, nil)
}

var _ = reg("hCgoFeed", hCgoFeed)

// hCgoFeed: a long write hands all of its bytes to the C library.
func hCgoFeed() {
	d := cgoNew()
	l := P("len")<<20 + P("add")
	data := Big("m", l)
	nn, err := d.Write(data)
	Assert("C18.cgo-feed-written", nn == l && err == nil)
	Assert("C08+C09.cgo-feed", cgoFed(d, data))
}

// cgoFed reports whether d has absorbed data.
func cgoFed(d cgoHash, data []byte) bool {
	s, c := sha1cd.Sum(data)
	t, e := d.CollisionResistantSum(nil)
	return same(s[:], t) && c == e
}
