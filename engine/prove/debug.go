package prove

import (
	"fmt"
	"os"

	"verif/engine/term"
)

// Dump prints a summary of a goal.
func Dump(g *term.Term) {
	cut := term.Cone([]*term.Term{g}, func(t *term.Term) bool { return arithLeaf(t) })
	ops := map[string]int{}
	for _, t := range cut {
		ops[fmt.Sprintf("%d/w%d", t.Op, t.W)]++
		if t.Op == term.OEq && t.Args[0].W == 32 {
			ops["EQ32"]++
			if t.Args[0].Op == term.OAdd || t.Args[1].Op == term.OAdd {
				ops["EQadd"]++
			} else {
				fmt.Fprintln(os.Stderr, "EQ", t.ID, fmt.Sprintf("%.100s", t))
			}
		}
	}
	fmt.Fprintln(os.Stderr, ops)
}
