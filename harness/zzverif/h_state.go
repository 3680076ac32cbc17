package zzverif

import "github.com/pjbgf/sha1cd"

// symState restores an arbitrary state with nx pending bytes: chaining value,
// pending bytes, block count and verdict are all free. With nx < 0 it is a
// newly created hash instead.
func symState(tag string, nx int) (d hasher, h [5]uint32, x []byte, n uint64, col bool) {
	if nx < 0 {
		return newHash(), specInit, nil, 0, false
	}
	h = symH(tag + "h")
	x = Bytes(tag+"x", nx)
	n = U64(tag+"q")<<6 | uint64(nx)
	col = Bool(tag + "col")
	d = newHash()
	err := d.UnmarshalBinary(blobC(h, x, n, col))
	Assert("restore-ok", err == nil)
	return
}

// blobC builds a saved state with the verdict.
func blobC(h [5]uint32, x []byte, n uint64, col bool) []byte {
	b := blob(h, x, n)
	if col {
		b[5] = 2
	}
	return b
}

// absorb feeds whole blocks one at a time to a fresh hash started from h and
// returns the chaining value and whether any block was flagged: the reference
// for everything that buffers, splits and pads.
func absorb(h [5]uint32, data []byte) ([5]uint32, bool) {
	col := false
	for len(data) >= 64 {
		d := newHash()
		d.UnmarshalBinary(blob(h, nil, 0))
		blk := make([]byte, 64)
		copy(blk, data[:64])
		d.Write(blk)
		st, _ := d.MarshalBinary()
		h = hOf(st)
		col = col || st[5] == 2
		data = data[64:]
	}
	return h, col
}

// padded appends the SHA-1 padding for a message of n bytes, of which rest
// are still pending.
func padded(rest []byte, n uint64) []byte {
	b := append([]byte{}, rest...)
	b = append(b, 0x80)
	for len(b)%64 != 56 {
		b = append(b, 0)
	}
	n <<= 3
	for i := 7; i >= 0; i-- {
		b = append(b, byte(n>>(8*uint(i))))
	}
	return b
}

// refFinish is the reference digest and verdict of a state.
func refFinish(h [5]uint32, rest []byte, n uint64, col bool) ([20]byte, bool) {
	h2, c2 := absorb(h, padded(rest, n))
	return beBytes(h2), col || c2
}

func scribble(p []byte) {
	for i := range p {
		p[i] ^= 0xa5
	}
}

var _ = reg("hWrites", hWrites)

// hWrites: up to four writes of the given lengths into an arbitrary state.
// The saved state afterwards is exactly the documented image of the absorbed
// message, whatever the splitting, and the digest and verdict follow from it.
func hWrites() {
	nx := P("nx")
	d, h, x, n, col := symState("", nx)
	lens := [4]int{P("a"), P("b"), P("c"), P("e")}
	total := 0
	for _, l := range lens {
		total += l
	}
	data := Bytes("m", total)
	off := 0
	for _, l := range lens {
		if l < 0 {
			continue
		}
		p := make([]byte, l)
		copy(p, data[off:off+l])
		nn, err := d.Write(p)
		Assert("C18.written", nn == l && err == nil)
		scribble(p)
		off += l
	}
	all := append(append([]byte{}, x...), data...)
	full := len(all) &^ 63
	rh, rc := absorb(h, all[:full])
	rc = rc || col
	rest := all[full:]
	n += uint64(total)
	got := stateOf(d)
	Assert("C09.state", same(got, blobC(rh, rest, n, rc)))
	Observe("state", got)
	if P("fin") == 0 {
		return
	}
	wantSum, wantCol := refFinish(rh, rest, n, rc)
	s, c := d.CollisionResistantSum(nil)
	Assert("C15.sum", same(s, wantSum[:]))
	Assert("C14.verdict", c == wantCol)
	Assert("C10.state-kept", same(got, stateOf(d)))
}

var _ = reg("hOneShot", hOneShot)

// hOneShot: the one-shot function agrees with the streaming hash.
func hOneShot() {
	l := P("len")
	data := Bytes("m", l)
	s, c := sha1cd.Sum(data)
	Observe("sum", s[:])
	d := sha1cd.New().(hasher)
	d.Write(data)
	s2, c2 := d.CollisionResistantSum(nil)
	Assert("C09.oneshot", same(s[:], s2))
	Assert("C09.oneshot-verdict", c == c2)
	full := l &^ 63
	rh, rc := absorb(specInit, data[:full])
	ws, wc := refFinish(rh, data[full:], uint64(l), rc)
	Assert("C15.oneshot", same(s[:], ws[:]))
	Assert("C14.oneshot", c == wc)
}
