package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"testing"
)

func TestGen(t *testing.T) {
	if os.Getenv("GEN") == "" {
		t.Skip()
	}
	f, _ := os.Create("attack.go")
	fmt.Fprintln(f, "package zzverif\n\n// Attacks are published collision messages up to their first flagged block, which is the last one listed; they start from the standard initial value.\nvar Attacks = [][]Block{")
	for _, n := range []string{"shattered-1.pdf", "shattered-2.pdf", "sha-mbles-1.bin", "sha-mbles-2.bin"} {
		b, err := os.ReadFile("/repo/test/testdata/files/" + n)
		if err != nil {
			t.Fatal(err)
		}
		h := specInit
		fmt.Fprintln(f, "\t{")
		for len(b) >= 64 {
			r := specBlock(h, b)
			var bl Block
			copy(bl[:], r.w[:16])
			fmt.Fprintf(f, "\t\t%s,\n", fmt.Sprintf("%#v", bl)[len("[16]uint32"):])
			if r.col {
				break
			}
			h = r.c1
			b = b[64:]
		}
		fmt.Fprintln(f, "\t},")
	}
	fmt.Fprintln(f, "}")
}

func TestCond(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 32; k++ {
		b, ok := CondBlock(k, -1, r.Uint64)
		if !ok || Mask(b)>>uint(k)&1 != 1 {
			t.Error(k, ok)
		}
		for s := 0; s < NConds(k); s++ {
			b, ok := CondBlock(k, s, r.Uint64)
			if !ok || Mask(b)>>uint(k)&1 != 0 {
				t.Error(k, s, ok)
			}
		}
	}
}
