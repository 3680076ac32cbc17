package smt

import (
	"fmt"
	"strconv"
	"strings"

	"verif/engine/term"
)

// Pair is a claimed equality.
type Pair struct{ A, B *term.Term }

// BuildBV renders "all of given hold and goal does not", with truth values as
// one-bit vectors. Terms in cut are free constants.
func BuildBV(given []Pair, goal Pair, cut func(*term.Term) bool) *Query {
	q := &Query{}
	var sb strings.Builder
	name := map[*term.Term]string{}
	nd := 0
	var visit func(t *term.Term)
	def := func(t *term.Term, e string) {
		n := "n" + strconv.Itoa(nd)
		nd++
		name[t] = n
		sb.WriteString("(define-fun ")
		sb.WriteString(n)
		sb.WriteString(" () (_ BitVec ")
		sb.WriteString(strconv.Itoa(int(t.W)))
		sb.WriteString(") ")
		sb.WriteString(e)
		sb.WriteString(")\n")
	}
	visit = func(t *term.Term) {
		if _, ok := name[t]; ok {
			return
		}
		if t.Op == term.OConst {
			name[t] = bits1(t.W, t.A)
			return
		}
		if t.Op == term.OVar || t.Op == term.OUF || cut(t) {
			n := "x" + strconv.Itoa(len(q.Leaves))
			q.Leaves = append(q.Leaves, t)
			name[t] = n
			fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", n, t.W)
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		list := func(op string) string {
			var b strings.Builder
			b.WriteString("(" + op)
			for _, a := range t.Args {
				b.WriteByte(' ')
				b.WriteString(name[a])
			}
			b.WriteByte(')')
			return b.String()
		}
		truth := func(op string) string { return "(ite " + list(op) + " #b1 #b0)" }
		a0 := name[t.Args[0]]
		switch t.Op {
		case term.ONot:
			if t.W == 1 && t.Args[0].Op == term.OXor {
				// part of one exclusive or, which the solver cancels as such
				def(t, "(bvxor "+a0+" "+bits1(t.W, ^uint64(0))+")")
				break
			}
			def(t, list("bvnot"))
		case term.OAnd:
			def(t, list("bvand"))
		case term.OOr:
			def(t, list("bvor"))
		case term.OXor:
			def(t, list("bvxor"))
		case term.OAdd:
			parts := []string{bits1(t.W, t.A)}
			for i, a := range t.Args {
				switch c := t.Coef[i] & term.Mask(t.W); c {
				case 1:
					parts = append(parts, name[a])
				default:
					parts = append(parts, "(bvmul "+bits1(t.W, c)+" "+name[a]+")")
				}
			}
			def(t, "(bvadd "+strings.Join(parts, " ")+")")
		case term.OMul:
			def(t, list("bvmul"))
		case term.OUDiv:
			def(t, list("bvudiv"))
		case term.OURem:
			def(t, list("bvurem"))
		case term.OSDiv:
			def(t, list("bvsdiv"))
		case term.OSRem:
			def(t, list("bvsrem"))
		case term.OShl:
			def(t, list("bvshl"))
		case term.OLShr:
			def(t, list("bvlshr"))
		case term.OAShr:
			def(t, list("bvashr"))
		case term.ORotl:
			def(t, fmt.Sprintf("((_ rotate_left %d) %s)", t.A, a0))
		case term.OConcat:
			def(t, list("concat"))
		case term.OExtract:
			def(t, fmt.Sprintf("((_ extract %d %d) %s)", t.A, t.B, a0))
		case term.OSExt:
			def(t, fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.Args[0].W, a0))
		case term.OIte:
			def(t, "(ite (= "+a0+" #b1) "+name[t.Args[1]]+" "+name[t.Args[2]]+")")
		case term.OEq:
			def(t, truth("="))
		case term.OUlt:
			def(t, truth("bvult"))
		case term.OSlt:
			def(t, truth("bvslt"))
		default:
			panic("smt: operator")
		}
	}
	for _, p := range given {
		visit(p.A)
		visit(p.B)
		sb.WriteString("(assert (= " + name[p.A] + " " + name[p.B] + "))\n")
	}
	visit(goal.A)
	visit(goal.B)
	sb.WriteString("(assert (not (= " + name[goal.A] + " " + name[goal.B] + ")))\n")
	q.Decls = sb.String()
	q.Nodes = nd
	return q
}

func bits1(w uint8, v uint64) string {
	v &= term.Mask(w)
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}
