#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed

HEAD = '''package sha1cd_test

import (
	"bytes"
	"encoding"
	"encoding/binary"
	"hash"
	"testing"

	"github.com/pjbgf/sha1cd"
)

var _ = bytes.Equal
var _ = binary.BigEndian

type full interface {
	hash.Hash
	encoding.BinaryMarshaler
	encoding.BinaryUnmarshaler
	CollisionResistantSum([]byte) ([]byte, bool)
}

func mk() full { return sha1cd.New().(full) }

func save(t *testing.T, h full) []byte {
	b, err := h.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	return b
}

// blob is a saved state with standard chaining value, n bytes hashed and the
// pending bytes x.
func blob(id byte, x []byte, n uint64) []byte {
	b := append([]byte("shacd"), id)
	for _, v := range []uint32{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0} {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	b = append(b, x...)
	b = append(b, make([]byte, 64-len(x))...)
	return binary.BigEndian.AppendUint64(b, n)
}
'''

seed("s01-save-length", "C12", "saving a hash whose byte count is 2^55 or more (reachable by restoring such a state)",
     "the saved byte count is not the hash's",
     [("sha1cd.go", "		byte(v>>56),\n		byte(v>>48),\n", "		byte(v>>55),\n		byte(v>>48),\n")], HEAD + """
func TestDemo(t *testing.T) {
	a, b := mk(), mk()
	if a.UnmarshalBinary(blob(1, nil, 3<<56)) != nil {
		t.Fatal("restore")
	}
	if b.UnmarshalBinary(save(t, a)) != nil || !bytes.Equal(a.Sum(nil), b.Sum(nil)) {
		t.Fatal("saved and restored hash differs")
	}
}
""")

seed("s02-length-overflow", "C15", "a byte count of 2^61 or more, whose bit count exceeds 64 bits, e.g. reached through a restored state",
     "finalisation panics instead of using the bit length modulo 2^64",
     [("sha1cd.go", "	// Length in bits.\n	len <<= 3\n", "	// Length in bits.\n	if len > len<<3 {\n		panic(\"sha1cd: message too long\")\n	}\n	len <<= 3\n")], HEAD + """
func TestDemo(t *testing.T) {
	a := mk()
	if a.UnmarshalBinary(blob(1, nil, 1<<61+64)) != nil {
		t.Fatal("restore")
	}
	a.Sum(nil)
}
""")

seed("s03-reset-shortcut", "C11", "resetting a hash restored from a state with no bytes counted but another chaining value",
     "Reset leaves that chaining value in place",
     [("sha1cd.go", "func (d *digest) Reset() {\n", "func (d *digest) Reset() {\n	if d.len == 0 && !d.col && d.h[0] == shared.Init0 {\n		return // nothing has been written\n	}\n")], HEAD + """
func TestDemo(t *testing.T) {
	a := mk()
	b := blob(1, nil, 0)
	b[20] ^= 1
	if a.UnmarshalBinary(b) != nil {
		t.Fatal("restore")
	}
	a.Reset()
	if !bytes.Equal(a.Sum(nil), mk().Sum(nil)) {
		t.Fatal("not fresh after Reset")
	}
}
""")

seed("s04-state-size", "C13", "restoring from bytes longer than a saved state",
     "oversized states are accepted",
     [("sha1cd.go", "	if len(b) != shared.MarshaledSize {\n", "	if len(b) < shared.MarshaledSize {\n")], HEAD + '''
func TestDemo(t *testing.T) {
	a := mk()
	a.Write([]byte("xyz"))
	s := a.Sum(nil)
	if a.UnmarshalBinary(append(blob(1, nil, 64), 0)) == nil || !bytes.Equal(a.Sum(nil), s) {
		t.Fatal("oversized state accepted")
	}
}
''')

seed("s05-restore-int", "C19", "a restored state whose byte count has bit 31 set, on a 32-bit platform",
     "on 32-bit platforms the pending count becomes negative and the next operation panics or loses data",
     [("sha1cd.go", "	d.nx = int(d.len % shared.Chunk)\n", "	d.nx = int(d.len) % shared.Chunk\n")], HEAD + '''
func TestDemo(t *testing.T) {
	a := mk()
	if a.UnmarshalBinary(blob(1, []byte("abc"), 1<<31+3)) != nil {
		t.Fatal("restore")
	}
	if !bytes.Equal(save(t, a), blob(1, []byte("abc"), 1<<31+3)) {
		t.Fatal("not the same state")
	}
	a.Write([]byte("def"))
	if !bytes.Equal(save(t, a), blob(1, []byte("abcdef"), 1<<31+6)) {
		t.Fatal("wrong state")
	}
}
''', cmd='GOARCH=386 CGO_ENABLED=0 go test -vet=off -count=1 -run TestDemo -overlay "$tmp/o.json" .')

seed("s06-shared-scratch", "C16", "two hashes used at the same time from different goroutines",
     "all hashes share the expanded-message scratch: concurrent use of distinct hashes races and can miss or invent collisions",
     [("sha1cdblock_generic.go", "var forceGeneric bool\n", "var forceGeneric bool\n\n// expanded keeps the message expansion out of the stack frame of blockGeneric.\nvar expanded [shared.Rounds]uint32\n"),
      ("sha1cdblock_generic.go", "		m1 := [shared.Rounds]uint32{}\n", "		m1 := &expanded\n"),
      ("sha1cdblock_generic.go", "col := checkCollision(&m1, &cs, &h)", "col := checkCollision(m1, &cs, &h)")],
     HEAD + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			h := mk()
			for i := 0; i < 2000; i++ {
				h.Write(bytes.Repeat([]byte{byte(i)}, 128))
			}
			h.Sum(nil)
			done <- true
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}
}
''', cmd='CGO_ENABLED=1 go test -race -tags noasm -vet=off -count=1 -timeout 200s -run TestDemo -overlay "$tmp/o.json" .')

seed("s07-sum-in-place", "C10", "two goroutines asking the same idle hash for its digest at the same time",
     "Sum finalises the running hash in place and puts it back afterwards: concurrent sums disturb each other",
     [("sha1cd.go", '''	// Make a copy of d so that caller can keep writing and summing.
	d0 := *d
	hash := d0.checkSum()
	return append(in, hash[:]...)
''', '''	// Remember the state so that caller can keep writing and summing.
	h, nx, n, col := d.h, d.nx, d.len, d.col
	hash := d.checkSum()
	d.h, d.nx, d.len, d.col = h, nx, n, col
	return append(in, hash[:]...)
''')], HEAD + '''
func TestDemo(t *testing.T) {
	h := mk()
	h.Write([]byte("some message"))
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 2000; i++ {
				h.Sum(nil)
			}
			done <- true
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}
}
''', cmd='CGO_ENABLED=1 go test -race -vet=off -count=1 -timeout 200s -run TestDemo -overlay "$tmp/o.json" .')

seed("s08-save-buffer", "C17", "keeping a saved state while the hash goes on and is saved again",
     "MarshalBinary returns a buffer that belongs to the hash",
     [("sha1cd.go", "	col bool\n}\n", "	col bool\n\n	// state is reused by MarshalBinary.\n	state []byte\n}\n"),
      ("sha1cd.go", "	b := make([]byte, 0, shared.MarshaledSize)\n", "	if d.state == nil {\n		d.state = make([]byte, shared.MarshaledSize)\n	}\n	for i := range d.state {\n		d.state[i] = 0\n	}\n	b := d.state[:0]\n")], HEAD + '''
func TestDemo(t *testing.T) {
	h := mk()
	s1 := save(t, h)
	k := append([]byte{}, s1...)
	h.Write([]byte("abc"))
	save(t, h)
	if !bytes.Equal(s1, k) {
		t.Fatal("saved state changed")
	}
}
''')

INPKG = '''package sha1cd

import (
	"math/bits"
	"math/rand"
	"testing"

	"github.com/pjbgf/sha1cd/ubc"
)

// sibling recompresses m^dm from the state before step t.
func sibling(t int, m, dm *[80]uint32, st [5]uint32) (in, out [5]uint32) {
	w := *m
	for i := range w {
		w[i] ^= dm[i]
	}
	f := func(i int, b, c, d uint32) uint32 {
		switch {
		case i < 20:
			return b&c | ^b&d + 0
		case i < 40:
			return b ^ c ^ d
		case i < 60:
			return b&c | b&d | c&d
		}
		return b ^ c ^ d
	}
	k := [4]uint32{0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6}
	s := st
	for i := t - 1; i >= 0; i-- {
		a, b, c, d := s[1], bits.RotateLeft32(s[2], -30), s[3], s[4]
		e := s[0] - bits.RotateLeft32(a, 5) - f(i, b, c, d) - k[i/20] - w[i]
		s = [5]uint32{a, b, c, d, e}
	}
	in = s
	s = st
	for i := t; i < 80; i++ {
		n := bits.RotateLeft32(s[0], 5) + f(i, s[1], s[2], s[3]) + s[4] + k[i/20] + w[i]
		s = [5]uint32{n, s[0], bits.RotateLeft32(s[1], 30), s[2], s[3]}
	}
	for i := range s {
		out[i] = in[i] + s[i]
	}
	return
}

// block finds words that meet the conditions of exactly one vector.
func words(r *rand.Rand, bit int) (m [80]uint32) {
	for {
		for i := range m {
			m[i] = r.Uint32()
		}
		if ubc.CalculateDvMask(&m) == 1<<uint(bit) {
			return
		}
	}
}
'''

seed("s09-compare-four-words", "C02", "a block whose sibling agrees in the first four output words but not in the fifth",
     "such a block is flagged although it is not a near-collision block",
     [("sha1cdblock_generic.go", "(ihv[2] ^ h[2]) | (ihv[3] ^ h[3]) | (ihv[4] ^ h[4])) == 0 {", "(ihv[2] ^ h[2]) | (ihv[3] ^ h[3])) == 0 {")],
     INPKG + '''
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	dv := ubc.SHA1_dvs()[0]
	m := words(r, 0)
	var cs [3][5]uint32
	for i := range cs {
		for j := range cs[i] {
			cs[i][j] = r.Uint32()
		}
	}
	_, out := sibling(58, &m, &dv.Dm, cs[1])
	if dv.TestT == 65 {
		_, out = sibling(65, &m, &dv.Dm, cs[2])
	}
	if !checkCollision(&m, &cs, &out) {
		t.Fatal("collision not seen")
	}
	out[4] ^= 1 << 7
	if checkCollision(&m, &cs, &out) {
		t.Fatal("flagged without a collision")
	}
}
''', pkg=".")

seed("s10-last-vector", "C02", "a near-collision block for the last vector of the catalogue, II(56,0), and no other",
     "the last vector is never tested",
     [("sha1cdblock_generic.go", "		for i := 0; dvs[i].DvType != 0; i++ {\n", "		for i := 0; dvs[i+1].DvType != 0; i++ {\n")],
     INPKG + '''
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	dv := ubc.SHA1_dvs()[31]
	m := words(r, 31)
	var cs [3][5]uint32
	for i := range cs {
		for j := range cs[i] {
			cs[i][j] = r.Uint32()
		}
	}
	_, out := sibling(65, &m, &dv.Dm, cs[2])
	if dv.TestT == 58 {
		_, out = sibling(58, &m, &dv.Dm, cs[1])
	}
	if !checkCollision(&m, &cs, &out) {
		t.Fatal("collision not seen")
	}
}
''', pkg=".")

UBCH = '''package sha1cd_test

import (
	"testing"

	"github.com/pjbgf/sha1cd/ubc"
)
'''

seed("s11-catalogue-word", "C05", "a near-collision block for the vector I(46,2) in particular",
     "one word of that vector's message difference is wrong, so its near-collision blocks are missed",
     [("ubc/const.go", "			0x00000026, 0x0000004a, 0x0000080a, 0x00000060, 0x00000590, 0x00001020,\n			0x0000039a, 0x00000132},", "			0x00000026, 0x0000004a, 0x0000080a, 0x00000060, 0x00000590, 0x00001020,\n			0x0000039a, 0x00000123},")], UBCH + """
func TestDemo(t *testing.T) {
	for _, v := range ubc.SHA1_dvs() {
		for i := 16; i < 80; i++ {
			x := v.Dm[i-3] ^ v.Dm[i-8] ^ v.Dm[i-14] ^ v.Dm[i-16]
			if v.Dm[i] != x<<1|x>>31 {
				t.Fatal("not a message difference", v.DvType, v.DvK, v.DvB, i)
			}
		}
	}
}
""")

seed("s12-ubc-condition", "C04", "an expanded block meeting every other condition of II(50,2)",
     "a bit condition of II(50,2) reads the wrong word", [("ubc/ubc.go", """				not((W[45]^W[47])&(1<<1)) != 0 ||
				not(not((W[38]^(W[42]>>25))&(1<<5))) != 0 ||
""", """				not((W[45]^W[49])&(1<<1)) != 0 ||
				not(not((W[38]^(W[42]>>25))&(1<<5))) != 0 ||
""")], UBCH.replace('	"testing"', '	"math/rand"\n	"testing"') + """
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(3))
	var w [80]uint32
	bit := uint32(0)
	for _, v := range ubc.SHA1_dvs() {
		if v.DvType == 2 && v.DvK == 50 && v.DvB == 2 {
			bit = 1 << uint(v.MaskB)
		}
	}
	found := 0
	for n := 0; n < 1<<25 && found < 12; n++ {
		for i := 35; i < 70; i++ {
			w[i] = r.Uint32()
		}
		if ubc.CalculateDvMask(&w)&bit != 0 {
			found++
			if (w[45]^w[47])>>1&1 != 1 {
				t.Fatal("condition not met")
			}
		}
	}
	if found == 0 {
		t.Log("no sample")
	}
}
""")

ATT = """
// collides is a published collision message, up to its flagged block.
func collides(t *testing.T) []byte {
	b, err := os.ReadFile("test/testdata/files/shattered-1.pdf")
	if err != nil {
		t.Skip(err)
	}
	return b[:320]
}
"""
HEADF = HEAD.replace('	"hash"\n', '	"hash"\n	"os"\n')

seed("s13-pooled-oneshot", "C14", "a one-shot hash of a colliding message, then of another message, so that the pool hands the same object out again",
     "the verdict of an earlier message sticks to later, harmless ones",
     [("sha1cd.go", '	"hash"\n', '	"hash"\n	"sync"\n'),
      ("sha1cd.go", "// Sum returns the SHA-1 checksum of the data.", "// digests keeps digests between calls of Sum.\nvar digests = sync.Pool{New: func() interface{} { return new(digest) }}\n\n// Sum returns the SHA-1 checksum of the data."),
      ("sha1cd.go", "	var d digest\n	d.Reset()\n	d.Write(data)\n	return d.checkSum(), d.col", """	d := digests.Get().(*digest)
	defer digests.Put(d)
	d.h = [shared.WordBuffers]uint32{shared.Init0, shared.Init1, shared.Init2, shared.Init3, shared.Init4}
	d.nx, d.len = 0, 0
	d.Write(data)
	return d.checkSum(), d.col""")], HEADF + ATT + """
func TestDemo(t *testing.T) {
	m := collides(t)
	for i := 0; i < 50; i++ {
		sha1cd.Sum(m)
		if _, c := sha1cd.Sum([]byte("harmless")); c {
			t.Fatal("verdict of another message")
		}
	}
}
""")

seed("s14-short-length", "C08", "the cgo package, a partly filled buffer, and a single write of 64 KiB and a few bytes",
     "the C library puts such a write into its 64-byte buffer whole",
     [("cgo/sha1.c", "	if (left && len >= fill)", "	if (left && (unsigned short)len >= fill)")], """package cgo_test

import (
	"bytes"
	"crypto/sha1"
	"testing"

	"github.com/pjbgf/sha1cd/cgo"
)

func TestDemo(t *testing.T) {
	m := bytes.Repeat([]byte("0123456789abcde"), 5000)
	for _, l := range []int{65535, 65536, 65540, 65560} {
		h := cgo.New()
		h.Write(m[:10])
		h.Write(m[10 : 10+l])
		w := sha1.Sum(m[:10+l])
		if !bytes.Equal(h.Sum(nil), w[:]) {
			t.Fatal("wrong sum", l)
		}
	}
}
""", pkg="cgo")

seed("s15-last-byte", "C09", "63 bytes buffered and then a write of exactly one byte and one block",
     "the byte that completes the block comes from the end of the write",
     [("sha1cd.go", "		n := copy(d.x[d.nx:], p)\n		d.nx += n", "		n := copy(d.x[d.nx:], p)\n		if n == 1 && d.nx+len(p) == 2*shared.Chunk {\n			n = copy(d.x[d.nx:], p[len(p)-n:])\n		}\n		d.nx += n")], HEAD + """
func TestDemo(t *testing.T) {
	m := make([]byte, 300)
	for i := range m {
		m[i] = byte(i * 7)
	}
	for n := 0; n <= 130; n++ {
		for k := 0; k <= 130; k++ {
			a, b := mk(), mk()
			a.Write(m[:n])
			a.Write(m[n : n+k])
			b.Write(m[:n+k])
			if !bytes.Equal(a.Sum(nil), b.Sum(nil)) {
				t.Fatal("split matters", n, k)
			}
		}
	}
}
""")

seed("s16-reset-empty", "C11", "Reset of a hash that is flagged but counts no bytes, as after restoring such a state",
     "Reset leaves the verdict of an earlier message",
     [("sha1cd.go", "	d.nx = 0\n	d.len = 0\n\n	d.col = false", "	if d.len != 0 {\n		d.col = false\n	}\n	d.nx = 0\n	d.len = 0")], HEAD + """
func TestDemo(t *testing.T) {
	h := mk()
	if h.UnmarshalBinary(blob(2, nil, 0)) != nil {
		t.Skip("not restorable")
	}
	h.Reset()
	if _, c := h.CollisionResistantSum(nil); c {
		t.Fatal("verdict survives Reset")
	}
}
""")

seed("s17-arm64-verdict", "C14", "arm64 with SHA-1 instructions, and a colliding block followed by another block in the same write",
     "the verdict of a block is lost when the next block of the write is clean",
     [("sha1cdblock_arm64.go", "		if col {\n			dig.col = true\n", "		dig.col = col\n		if col {\n")], HEADF + ATT + """
func TestDemo(t *testing.T) {
	m := collides(t)
	if _, c := sha1cd.Sum(append(m[:320:320], make([]byte, 192)...)); !c {
		t.Fatal("verdict lost")
	}
}
""", cmd='GOARCH=arm64 CGO_ENABLED=0 go test -vet=off -c -o "$tmp/t" -overlay "$tmp/o.json" . || exit 3\nqemu-aarch64 "$tmp/t" -test.run TestDemo')

seed("s18-cgo-sum-state", "C10", "the cgo package, and writing on after a sum",
     "summing finishes the running hash itself",
     [("cgo/sha1.go", "	d0 := *d // use a copy of d to avoid race conditions.\n	h, c := d0.sum()", "	h, c := d.sum()")], """package cgo_test

import (
	"bytes"
	"testing"

	"github.com/pjbgf/sha1cd/cgo"
)

func TestDemo(t *testing.T) {
	a, b := cgo.New().(interface {
		Write([]byte) (int, error)
		Sum([]byte) []byte
		CollisionResistantSum([]byte) ([]byte, bool)
	}), cgo.New()
	a.Write([]byte("abc"))
	a.CollisionResistantSum(nil)
	a.Sum(nil)
	a.Write([]byte("def"))
	b.Write([]byte("abcdef"))
	if !bytes.Equal(a.Sum(nil), b.Sum(nil)) {
		t.Fatal("a sum changed the hash")
	}
}
""", pkg="cgo")
