package zzverif

import (
	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/ubc"
)

// follow continues two hashes in the same way and requires that they cannot be
// told apart: saved state, digest and verdict, before and after more data.
func follow(id string, d, e hasher, data []byte) {
	Assert(id+".state", same(stateOf(d), stateOf(e)))
	s1, c1 := d.CollisionResistantSum(nil)
	s2, c2 := e.CollisionResistantSum(nil)
	Assert(id+".sum", same(s1, s2))
	Assert(id+".verdict", c1 == c2)
	if len(data) == 0 {
		return
	}
	d.Write(data)
	e.Write(data)
	Assert(id+".state-after", same(stateOf(d), stateOf(e)))
	s1, c1 = d.CollisionResistantSum(nil)
	s2, c2 = e.CollisionResistantSum(nil)
	Assert(id+".sum-after", same(s1, s2))
	Assert(id+".verdict-after", c1 == c2)
	Observe(id, s1)
}

var _ = reg("hReset", hReset)

// hReset: any state, some writes, a sum, Reset: indistinguishable from new.
func hReset() {
	d, _, _, _, _ := symState("", P("nx"))
	d.Write(Bytes("m", P("a")))
	if P("sum") > 0 {
		d.Sum(nil)
	}
	d.Reset()
	s, c := d.CollisionResistantSum(nil)
	Assert("C11.no-verdict", !c)
	Assert("C11.empty-digest", same(s, []byte("\xda\x39\xa3\xee\x5e\x6b\x4b\x0d\x32\x55\xbf\xef\x95\x60\x18\x90\xaf\xd8\x07\x09")))
	Assert("C11.fresh-state", same(stateOf(d), blob(specInit, nil, 0)))
	follow("C11", d, newHash(), Bytes("t", P("b")))
	// a second message after another reset
	d.Reset()
	follow("C11.again", d, newHash(), Bytes("u", P("c")))
}

var _ = reg("hRestore", hRestore)

// hRestore: arbitrary bytes of a given length offered to a hash in an
// arbitrary state.
func hRestore() {
	n := P("len")
	d, _, _, _, _ := symState("", P("nx"))
	b := Bytes("b", n)
	if n >= 98 {
		b[97] = b[97]&^63 | byte(P("r")) // pending bytes of the offered state
	}
	switch k := P("magic"); {
	case k == 0: // any identifier
	case k <= 6 && n >= 6: // 1, 2: valid ones
		copy(b, blobMagic)
		b[5] = byte(k)
	case k <= 11 && n >= 6: // one wrong character
		copy(b, blobMagic)
		b[k-7] ^= 0x20
	}
	keep := append([]byte{}, b...)
	before := stateOf(d)
	err := d.UnmarshalBinary(b)
	want := false
	if n == 98 {
		want = same(b[:5], []byte(blobMagic[:5])) && (b[5] == 1 || b[5] == 2)
	}
	Assert("C13.accept", (err == nil) == want)
	Assert("C17.restore-arg", same(b, keep))
	scribble(b)
	after := stateOf(d)
	if err != nil {
		Assert("C13.untouched", same(before, after))
		if P("magic") > 0 {
			e := newHash()
			e.UnmarshalBinary(before)
			follow("C13.rejected", d, e, Bytes("t", P("t")))
		}
		return
	}
	// an accepted state: pending bytes as the length says, the rest ignored
	Cover("accepted", true)
	r := P("r")
	Assert("C13.state-head", same(after[:26], keep[:26]))
	Assert("C13.state-len", same(after[90:], keep[90:]))
	ok := true
	for i := 0; i < 64; i++ {
		w := byte(0)
		if i < r {
			w = keep[26+i]
		}
		ok = ok && after[26+i] == w
	}
	Assert("C13.state-pending", ok)
}

var _ = reg("hForeign", hForeign)

// hForeign: a state with the right identifier and arbitrary remaining bytes
// (also ones saving never produces) gives a hash that works normally.
func hForeign() {
	nx := P("nx")
	b := Bytes("b", 98)
	copy(b, blobMagic)
	if Bool("col") {
		b[5] = 2
	}
	b[97] = b[97]&^63 | byte(nx)
	d := newHash()
	err := d.UnmarshalBinary(b)
	Assert("C13.accept", err == nil)
	var h [5]uint32 = hOf(b)
	n := uint64(0)
	for i := 90; i < 98; i++ {
		n = n<<8 | uint64(b[i])
	}
	x := b[26 : 26+nx]
	data := Bytes("m", P("a"))
	nn, err := d.Write(data)
	Assert("C13.write", nn == len(data) && err == nil)
	all := append(append([]byte{}, x...), data...)
	full := len(all) &^ 63
	rh, rc := absorb(h, all[:full])
	rc = rc || b[5] == 2
	n += uint64(len(data))
	Assert("C13.write-state", same(stateOf(d), blobC(rh, all[full:], n, rc)))
	ws, wc := refFinish(rh, all[full:], n, rc)
	s, c := d.CollisionResistantSum(nil)
	Assert("C13.sum", same(s, ws[:]))
	Assert("C13.verdict", c == wc)
	Observe("sum", s)
}

var _ = reg("hSave", hSave)

// hSave: save and restore into a hash with its own arbitrary past.
func hSave() {
	d, _, _, _, _ := symState("", P("nx"))
	d.Write(Bytes("m", P("a")))
	st := stateOf(d)
	keep := append([]byte{}, st...)
	e, _, _, _, _ := symState("o", P("onx"))
	e.Write(Bytes("om", P("oa")))
	err := e.UnmarshalBinary(st)
	Assert("C12.accept", err == nil)
	scribble(st)
	Assert("C12.repeatable", same(stateOf(d), keep))
	follow("C12", d, e, Bytes("t", P("t")))
	// the format is the documented one
	Assert("C12.size", len(keep) == 98)
	Assert("C12.identifier", same(keep[:5], []byte(blobMagic[:5])) && (keep[5] == 1 || keep[5] == 2))
	// two hashes reach the same state through different buffers
	Cover("flagged", keep[5] == 2)
	Cover("clean", keep[5] == 1)
}

var _ = reg("hCanon", hCanon)

// hCanon: the saved form depends on the message prefix only. Two hashes reach
// the same prefix in different ways: one with leftovers of a longer buffer.
func hCanon() {
	nx := P("nx")
	h := symH("h")
	x := Bytes("x", nx)
	n := U64("q")<<6 | uint64(nx)
	d := newHash()
	d.UnmarshalBinary(blob(h, x, n))
	// the other one starts from garbage, fills its buffer, and is restored to
	// one block earlier before reaching the same point
	e := newHash()
	e.Write(Bytes("g", P("g")))
	b := blob(h, nil, n-uint64(nx))
	junk := Bytes("j", 64)
	copy(b[26:90], junk)
	e.UnmarshalBinary(b)
	e.Write(x)
	follow("C12.canonical", d, e, Bytes("t", P("t")))
}

var _ = reg("hSum", hSum)

// hSum: summing observes only.
func hSum() {
	nx := P("nx")
	d, h, x, n, col := symState("", nx)
	pre := P("pre")
	spare := P("spare")
	in := make([]byte, pre, pre+spare)
	copy(in, Bytes("in", pre))
	keepIn := append([]byte{}, in...)
	want, wantCol := refFinish(h, x, n, col)
	var s1, s2 []byte
	var c bool
	NoWrites("C10.no-writes")
	AllowWrite(in)
	s1, c = d.CollisionResistantSum(in)
	EndWrites()
	r1 := append([]byte{}, s1...)
	NoWrites("C10.no-writes")
	AllowWrite(in)
	s2 = d.Sum(in)
	EndWrites()
	Assert("C10.result", len(r1) == pre+20 && same(r1[:pre], keepIn) && same(r1[pre:], want[:]))
	Assert("C10.verdict", c == wantCol)
	Assert("C10.agree", same(r1, s2))
	Assert("C10.prefix-kept", same(in, keepIn))
	scribble(s1)
	if pre+20 > cap(in) {
		Assert("C17.sum-fresh", same(in, keepIn))
	}
	scribble(s2)
	s3, c3 := d.CollisionResistantSum(nil)
	Assert("C10.again", same(s3, want[:]) && c3 == wantCol)
	// unchanged for every continuation
	e := newHash()
	e.UnmarshalBinary(blobC(h, x, n, col))
	follow("C10", d, e, Bytes("t", P("t")))
	Conc("C10.concurrent", func() {
		d.Sum(nil)
		d.CollisionResistantSum(nil)
		d.MarshalBinary()
		d.Size()
		d.BlockSize()
	})
}

var _ = reg("hSticky", hSticky)

// hSticky: a raised verdict survives anything but Reset and restoring.
func hSticky() {
	d, _, _, _, col := symState("", P("nx"))
	_, c0 := d.CollisionResistantSum(nil)
	Assert("C14.reported", !col || c0)
	st := stateOf(d)
	Assert("C14.saved", (st[5] == 2) == col)
	d.Write(Bytes("m", P("a")))
	_, c1 := d.CollisionResistantSum(nil)
	Assert("C14.after-write", !col || c1)
	d.Sum(nil)
	e := newHash()
	e.Write(Bytes("g", 3))
	e.UnmarshalBinary(stateOf(d))
	e.Write(Bytes("t", P("t")))
	_, c2 := e.CollisionResistantSum(nil)
	Assert("C14.after-restore", !col || c2)
	e.UnmarshalBinary(st)
	_, c3 := e.CollisionResistantSum(nil)
	Assert("C14.back", c3 == c0)
	d.Reset()
	_, c4 := d.CollisionResistantSum(nil)
	Assert("C14.reset", !c4)
	Cover("set", col)
}

var _ = reg("hHistory", hHistory)

// hHistory: a verdict is raised only if a block of this message raised it, and
// then stays: two writes after an arbitrary unflagged state.
func hHistory() {
	nx := P("nx")
	h := symH("h")
	x := Bytes("x", nx)
	n := U64("q")<<6 | uint64(nx)
	d := newHash()
	d.UnmarshalBinary(blob(h, x, n))
	a, b := Bytes("m", P("a")), Bytes("t", P("b"))
	d.Write(a)
	all := append(append([]byte{}, x...), a...)
	full := len(all) &^ 63
	rh, rc := absorb(h, all[:full])
	Assert("C14.saved-verdict", (stateOf(d)[5] == 2) == rc)
	d.Write(b)
	all2 := append(append([]byte{}, all[full:]...), b...)
	full2 := len(all2) &^ 63
	rh, rc2 := absorb(rh, all2[:full2])
	Assert("C14.saved-verdict2", (stateOf(d)[5] == 2) == (rc || rc2))
	_, c := d.CollisionResistantSum(nil)
	_, wc := refFinish(rh, all2[full2:], n+uint64(len(a)+len(b)), rc || rc2)
	Assert("C14.reported-verdict", c == wc)
	Cover("raised", rc)
	Cover("raised-later", rc2)
}

var _ = reg("hIsolated", hIsolated)

// hIsolated: what one hash does is invisible to another, and nothing shared
// is written.
func hIsolated() {
	na, nb := P("a"), P("b")
	m, o := Bytes("m", na), Bytes("o", nb)
	// alone
	ref := newHash()
	ref.Write(m)
	want, wantC := ref.CollisionResistantSum(nil)
	wantSt := stateOf(ref)
	// interleaved with another one, before, in the middle and after
	e, _, _, _, _ := symState("y", P("nx"))
	d := newHash()
	e.Write(o)
	d.Write(m[:na/2])
	e.Sum(nil)
	e.Write(o)
	f := newHash()
	f.Write(o)
	f.CollisionResistantSum(nil)
	d.Write(m[na/2:])
	e.Reset()
	sha1cd.Sum(o)
	f.UnmarshalBinary(stateOf(d))
	f.Write(o)
	f.Reset()
	s, c := d.CollisionResistantSum(nil)
	Assert("C16.sum", same(s, want))
	Assert("C16+C14.verdict", c == wantC)
	Assert("C16.state", same(stateOf(d), wantSt))
	s2, c2 := sha1cd.Sum(m)
	Assert("C16.oneshot", same(s2[:], want) && c2 == wantC)
	Assert("C14.oneshot", c2 == wantC)
	mm := append([]byte{}, m...)
	Conc("C16.no-shared-writes", func() {
		g := sha1cd.New().(hasher)
		g.Write(mm)
		g.CollisionResistantSum(nil)
		st, _ := g.MarshalBinary()
		g.UnmarshalBinary(st)
		g.Reset()
		sha1cd.Sum(mm)
	})
	if P("mask") > 0 {
		var w [80]uint32
		for i := range w {
			w[i] = U32("w" + itoa(i))
		}
		Conc("C16.no-shared-writes", func() {
			ubc.CalculateDvMask(&w)
			ubc.SHA1_dvs()
		})
	}
	Observe("sum", s)
}

func itoa(i int) string {
	if i < 10 {
		return string([]byte{byte('0' + i)})
	}
	return string([]byte{byte('0' + i/10), byte('0' + i%10)})
}

var _ = reg("hBuffers", hBuffers)

// hBuffers: caller-owned memory is only read, and only during the call.
func hBuffers() {
	nx, na := P("nx"), P("a")
	d, h, x, n, col := symState("", nx)
	e := newHash()
	e.UnmarshalBinary(blobC(h, x, n, col))
	// the written slice is a window of a larger one
	big := Bytes("m", na+16)
	keep := append([]byte{}, big...)
	p := big[8 : 8+na : 12+na]
	d.Write(p)
	Assert("C17.write-arg", same(big, keep))
	scribble(big)
	e.Write(keep[8 : 8+na])
	st := stateOf(d)
	Assert("C17.write-retained", same(st, stateOf(e)))
	keepSt := append([]byte{}, st...)
	scribble(st)
	Assert("C17.save-result", same(stateOf(d), keepSt))
	s, _ := d.CollisionResistantSum(nil)
	keepS := append([]byte{}, s...)
	scribble(s)
	s2 := d.Sum(nil)
	Assert("C17.sum-result", same(s2, keepS))
	f := newHash()
	arg := append([]byte{}, keepSt...)
	f.UnmarshalBinary(arg)
	Assert("C17.restore-arg", same(arg, keepSt))
	scribble(arg)
	f.Write(keep[:8])
	e.Write(keep[:8])
	Assert("C17.restore-retained", same(stateOf(f), stateOf(e)))
	msg := append([]byte{}, keep...)
	sum, _ := sha1cd.Sum(msg)
	Assert("C17.oneshot-arg", same(msg, keep))
	g := newHash()
	g.Write(keep)
	Assert("C17.oneshot", same(sum[:], g.Sum(nil)))
	// results stay as they are whatever the hash does later
	r1, r1s := stateOf(e), e.Sum(nil)
	k1, k1s := append([]byte{}, r1...), append([]byte{}, r1s...)
	e.Write(keep[:5])
	e.Sum(nil)
	e.MarshalBinary()
	e.Reset()
	e.MarshalBinary()
	e.Sum(nil)
	stateOf(newHash())
	Assert("C17.save-kept", same(r1, k1))
	Assert("C17.sum-kept", same(r1s, k1s))
	q := append([]byte{}, keep...)
	NoWritesTo("C17.arg-written", q)
	newHash().Write(q)
	sha1cd.Sum(q)
	EndWrites()
	Observe("sum", s2)
}

var _ = reg("hTotal", hTotal)

// hTotal: every operation succeeds.
func hTotal() {
	d, _, _, _, _ := symState("", P("nx"))
	na := P("a")
	var data []byte
	if na >= 0 {
		data = Bytes("m", na)
	} else {
		na = 0
	}
	nn, err := d.Write(data)
	Assert("C18.count", nn == na)
	Assert("C18.no-error", err == nil)
	Assert("C18.size", d.Size() == 20 && d.BlockSize() == 64 && sha1cd.Size == 20 && sha1cd.BlockSize == 64)
	_, err = d.MarshalBinary()
	Assert("C18.save", err == nil)
	s, _ := d.CollisionResistantSum(nil)
	Assert("C18.sum-size", len(s) == 20)
	Assert("C18.sum-size", len(d.Sum(nil)) == 20)
	d.Reset()
	nn, err = d.Write(data)
	Assert("C18.count-reset", nn == na && err == nil)
	Assert("C18.size", d.Size() == 20 && d.BlockSize() == 64)
}

var _ = reg("hMask", hMask)

// hMask: the filter on an arbitrary expanded block (all 80 words free).
func hMask() {
	var w, keep [80]uint32
	for i := range w {
		w[i] = U32("w" + itoa(i))
	}
	keep = w
	got := ubc.CalculateDvMask(&w)
	Assert("C04.mask", got == specMask(&keep))
	Assert("C04.arg-kept", w == keep)
	Observe("mask", []byte{byte(got >> 24), byte(got >> 16), byte(got >> 8), byte(got)})
	Cover("empty", got == 0)
	Cover("bit0", got&1 != 0)
	Cover("bit31", got>>31 != 0)
	Assert("C04.nil", ubc.CalculateDvMask(nil) == 0)
}

var _ = reg("hTable", hTable)

// hTable: vector k of the exported catalogue, at an arbitrary word.
func hTable() {
	dvs := ubc.SHA1_dvs()
	Assert("C05.count", len(dvs) == 33)
	if len(dvs) != 33 {
		return
	}
	k, j := P("k"), int(U8("j"))
	Assume(j < 80)
	if k == 32 { // the terminator
		z := dvs[32]
		Assert("C05.terminator", z.DvType == 0 && z.DvK == 0 && z.DvB == 0 && z.TestT == 0 && z.MaskI == 0 && z.MaskB == 0 && z.Dm[j] == 0)
		return
	}
	v, d := specDVs[k], dvs[k]
	Assert("C05.vector", uint32(d.DvType) == v.typ && uint32(d.DvK) == v.k && uint32(d.DvB) == v.b)
	Assert("C05.mask-bit", d.MaskI == 0 && uint32(d.MaskB) == uint32(k))
	Assert("C05.test-step", uint32(d.TestT) == v.t)
	dm := specDm(v)
	Assert("C05.difference", d.Dm[j] == dm[j])
	// the difference is a valid expanded message difference by itself
	if j >= 16 {
		Assert("C05.expansion", d.Dm[j] == rotl(d.Dm[j-3]^d.Dm[j-8]^d.Dm[j-14]^d.Dm[j-16], 1))
	}
	Observe("t", []byte{byte(d.TestT), byte(d.DvK), byte(d.Dm[j] >> 24), byte(d.Dm[j] >> 16), byte(d.Dm[j] >> 8), byte(d.Dm[j])})
	Cover("last", j == 79)
}

var _ = reg("hPairMask", hPairMask)

// hPairMask: the conditions of every vector are invariant under its own
// message difference, for an arbitrary expanded block.
func hPairMask() {
	var w, o [80]uint32
	for i := range w {
		w[i] = U32("w" + itoa(i))
	}
	m := ubc.CalculateDvMask(&w)
	for _, d := range ubc.SHA1_dvs() {
		if d.DvType == 0 {
			break
		}
		for i := range w {
			o[i] = w[i] ^ d.Dm[i]
		}
		mo := ubc.CalculateDvMask(&o)
		bit := uint32(1) << uint(d.MaskB)
		Assert("C20.conditions", m&bit == mo&bit)
	}
	Cover("some", m != 0)
}
