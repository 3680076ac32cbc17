package prove

import (
	"fmt"
	"os"

	"verif/engine/term"
)

func (p *P) DumpDup(g *term.Term) {
	byk := map[string]*term.Term{}
	n := 0
	for _, t := range term.Cone([]*term.Term{g}, nil) {
		if t.W < 32 || fewValues(p.Sim(t)) {
			continue
		}
		k := fmt.Sprint(p.Sim(t))
		if o := byk[k]; o != nil {
			n++
			if n < 6 {
				fmt.Fprintf(os.Stderr, "DUP %d %.400s\n    %d %.400s bad=%v\n", o.ID, o, t.ID, t, p.bad[[2]int32{o.ID, t.ID}])
			}
			continue
		}
		byk[k] = t
	}
	fmt.Fprintln(os.Stderr, "dups", n)
	n = 0
	for _, t := range term.Cone([]*term.Term{g}, func(t *term.Term) bool { return arithLeaf(t) }) {
		if t.Op == term.OEq && (t.Args[0].Op == term.OAdd || t.Args[1].Op == term.OAdd) {
			n++
			if n%12 == 0 {
				fmt.Fprintf(os.Stderr, "EQA %d %.300s\n", t.ID, t)
			}
		}
	}
}
