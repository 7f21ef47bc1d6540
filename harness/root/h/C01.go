package h

import (
	"context"
	"strings"

	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/zzverif/sym"
)

// H_C01_pairs: every pair of binary operators, in every position of n.
func H_C01_pairs() {
	op1 := binOps[sym.Choose(len(binOps))]
	op2 := binOps[sym.Choose(len(binOps))]
	ops := [3]string{"7", "2", "3"}
	pos := 1
	if sym.Thorough() {
		pos = sym.Choose(3)
	} else {
		// n in the position the outer operator does not share
		pos = []int{0, 2}[sym.Choose(2)]
	}
	ops[pos] = "n"
	checkExpr([]string{ops[0], op1, ops[1], op2, ops[2]}, pos%2 == 0)
}

// H_C01_single: every single binary operator between n and a constant that makes
// the truth value of both sides matter.
func H_C01_single() {
	op := binOps[sym.Choose(len(binOps))]
	c := []string{"0", "1", "2", "63", "64", "9223372036854775807"}[sym.Choose(6)]
	if sym.Choose(2) == 0 {
		checkExpr([]string{"n", op, c}, true)
	} else {
		checkExpr([]string{c, op, "n"}, false)
	}
}

// H_C01_self: n on both sides.
func H_C01_self() {
	op := binOps[sym.Choose(len(binOps))]
	checkExpr([]string{"n", op, "n"}, false)
}

// H_C01_prefix: unary operators, alone, doubled, and against each binary operator.
func H_C01_prefix() {
	u := preOps[sym.Choose(len(preOps))]
	switch sym.Choose(4) {
	case 0:
		v := preOps[sym.Choose(len(preOps))]
		checkExpr([]string{u, v, "n"}, true)
	case 1:
		op := binOps[sym.Choose(len(binOps))]
		checkExpr([]string{u, "n", op, "2"}, true)
	case 2:
		op := binOps[sym.Choose(len(binOps))]
		checkExpr([]string{"7", op, u, "n"}, true)
	case 3:
		op := binOps[sym.Choose(len(binOps))]
		checkExpr([]string{u, "(", "n", op, "2", ")"}, true)
	}
}

// H_C01_ternary: nested conditionals, with every binary operator around them.
func H_C01_ternary() {
	switch sym.Choose(6) {
	case 0:
		checkExpr([]string{"n", "?", "5", ":", "6"}, true)
	case 1:
		checkExpr([]string{"n", "==", "1", "?", "3", ":", "n", "==", "2", "?", "4", ":", "5"}, true)
	case 2:
		checkExpr([]string{"n", ">", "1", "?", "n", ">", "2", "?", "3", ":", "4", ":", "5"}, true)
	case 3:
		op := binOps[sym.Choose(len(binOps))]
		checkExpr([]string{"n", op, "2", "?", "5", ":", "6"}, true)
	case 4:
		op := binOps[sym.Choose(len(binOps))]
		checkExpr([]string{"n", "?", "7", op, "2", ":", "9"}, true)
	case 5:
		op := binOps[sym.Choose(len(binOps))]
		checkExpr([]string{"n", "?", "9", ":", "7", op, "2"}, true)
	}
}

// H_C01_paren: parentheses against every pair of operators.
func H_C01_paren() {
	op1 := binOps[sym.Choose(len(binOps))]
	op2 := binOps[sym.Choose(len(binOps))]
	if sym.Choose(2) == 0 {
		checkExpr([]string{"(", "n", op1, "2", ")", op2, "3"}, true)
	} else {
		checkExpr([]string{"7", op1, "(", "2", op2, "n", ")"}, true)
	}
}

// H_C01_repeat: evaluation does not depend on what was evaluated before.
func H_C01_repeat() {
	n := sym.Int64()
	sym.Assume(n >= 0)
	ctx := context.Background()
	exps := []string{"n%3", "n==2||n==5", "(n", "n#", "n!=1", "n%10?3:4"}
	a := exps[sym.Choose(len(exps))]
	b := exps[sym.Choose(len(exps))]
	r1, e1 := plurals.Eval(ctx, b, n)
	plurals.Eval(ctx, a, n)
	r2, e2 := plurals.Eval(ctx, b, n)
	sym.Assert((e1 == nil) == (e2 == nil), "same error after another evaluation")
	if e1 == nil && e2 == nil {
		sym.Assert(r1 == r2, "same value after another evaluation")
		sym.ObserveInt("r", r2)
	}
}

// H_C01_tree: random trees of bounded depth, rendered with the parentheses C needs.
func H_C01_tree() {
	if !sym.Thorough() {
		return
	}
	toks := genTree(2)
	checkExpr(toks, true)
}

func genTree(d int) []string {
	k := 3
	if d > 0 {
		k = 6
	}
	switch sym.Choose(k) {
	case 0:
		return []string{"n"}
	case 1:
		return []string{"2"}
	case 2:
		return []string{"0"}
	case 3:
		ops := []string{"%", "-", "<", "==", "&&", "||"}
		op := ops[sym.Choose(len(ops))]
		l := genTree(d - 1)
		r := genTree(d - 1)
		return append(append(l, op), r...)
	case 4:
		x := genTree(d - 1)
		return append(append([]string{"!", "("}, x...), ")")
	default:
		c := genTree(0)
		l := genTree(d - 1)
		r := genTree(d - 1)
		x := append(append(c, "?"), l...)
		return append(append(x, ":"), r...)
	}
}

// H_C01_near: texts next to a published rule: one more pair of parentheses, one
// pair fewer, an operator replaced by a neighbour. They are rules of their own and
// mean what C says, however close to a well-known rule they look.
func H_C01_near() {
	r := rules[sym.Choose(len(rules))]
	toks := strings.Split(r.toks, " ")
	max := 22
	if sym.Thorough() {
		max = 50
	}
	if len(toks) > max {
		return
	}
	out := []string{}
	switch sym.Choose(3) {
	case 0: // a pair more
		i := sym.Choose(len(toks))
		j := i + sym.Choose(len(toks)-i)
		out = append(out, toks[:i]...)
		out = append(out, "(")
		out = append(out, toks[i:j+1]...)
		out = append(out, ")")
		out = append(out, toks[j+1:]...)
	case 1: // a pair fewer
		i := sym.Choose(len(toks))
		if toks[i] != "(" {
			return
		}
		d, j := 0, i
		for ; j < len(toks); j++ {
			if toks[j] == "(" {
				d++
			} else if toks[j] == ")" {
				d--
				if d == 0 {
					break
				}
			}
		}
		if j == len(toks) {
			return
		}
		out = append(out, toks[:i]...)
		out = append(out, toks[i+1:j]...)
		out = append(out, toks[j+1:]...)
	case 2: // a neighbouring operator
		i := sym.Choose(len(toks))
		alt := near[toks[i]]
		if len(alt) == 0 {
			return
		}
		out = append(out, toks...)
		out[i] = alt[sym.Choose(len(alt))]
	}
	n := sym.Int64()
	sym.Assume(n >= 0)
	if _, ok := oracle(out, n, false); !ok {
		return
	}
	checkText(out, strings.Join(out, ""), n, true)
}

var near = map[string][]string{
	"==": {"!=", ">="}, "!=": {"=="}, ">": {">=", "<"}, "<": {"<=", ">"}, ">=": {">"}, "<=": {"<"},
	"&&": {"||", "&"}, "||": {"&&", "|"}, "%": {"/"},
}

// H_C01_words: every text in the code that is an expression means what C says, alone
// and as a part of a longer expression.
func H_C01_words() {
	w := sym.Word("plurals", "text", 200)
	toks, ok := lex(w)
	if !ok || len(toks) > 40 && !sym.Thorough() {
		return
	}
	n := sym.Int64()
	sym.Assume(n >= 0)
	if _, ok := oracle(toks, n, false); !ok {
		return
	}
	switch sym.Choose(4) {
	case 1:
		toks = append(append([]string{"("}, toks...), ")")
	case 2:
		toks = append(append([]string{"1", "-"}, toks...), "-", "n")
		w = ""
	case 3:
		w = ""
	}
	if _, ok := oracle(toks, n, false); !ok {
		return
	}
	if w == "" || len(toks) > 0 && toks[0] == "(" {
		w = strings.Join(toks, "")
	}
	checkText(toks, w, n, true)
}

// H_C01_size: constants at the constants of the code, against n on both sides.
func H_C01_size() {
	k := sym.Size("plurals", 0, 100000)
	ops := []string{"%", "==", ">", "<=", "-", "&&"}
	j := len(ops)
	if !sym.Thorough() {
		j = 3
	}
	checkExpr([]string{"n", ops[sym.Choose(j)], itoa(k)}, true)
}

// H_C01_operand: a unary operator makes a value of its own: n means the same
// everywhere else in the expression.
func H_C01_operand() {
	u := []string{"++", "--", "-", "!"}[sym.Choose(4)]
	op := binOps[sym.Choose(len(binOps))]
	t := []string{u, "n"}
	if u[0] == u[len(u)-1] && len(u) == 2 && sym.Choose(2) == 0 {
		t = []string{"n", u}
	}
	var toks []string
	switch sym.Choose(4) {
	case 0:
		toks = append(append(toks, t...), op, "n")
	case 1:
		toks = append(append(toks, "n", op), t...)
	case 2:
		toks = append(append(append(toks, "("), t...), ")", op, "n", "-", "n")
	case 3:
		toks = append(append(toks, t...), "?", "n", ":", "n", op, "2")
	}
	if _, ok := oracle(toks, 3, false); !ok {
		return
	}
	checkExpr(toks, false)
}

// H_C01_deep: expressions nested as deeply as the sizes of the code, and deeper.
func H_C01_deep() {
	max := 40
	if sym.Thorough() {
		max = 300
	}
	d := sym.Size("plurals", 1, max)
	if d > max {
		return
	}
	var toks, end []string
	switch sym.Choose(4) {
	case 0: // operands wait for each other
		for i := 0; i < d; i++ {
			toks = append(toks, "(", itoa(i%9+1), []string{"-", "+"}[i%2])
			end = append(end, ")")
		}
	case 1:
		for i := 0; i < d; i++ {
			toks = append(toks, "n", "==", itoa(i), "?", itoa(d-i), ":")
		}
	case 2:
		for i := 0; i < d; i++ {
			toks = append(toks, "n", ">", itoa(i), "?")
			end = append(end, ":", itoa(i+1))
		}
	case 3:
		for i := 0; i < d; i++ {
			toks = append(toks, "(")
			end = append(end, ")", "*", "3", "-", itoa(i))
		}
	}
	toks = append(append(toks, "n"), end...)
	checkExpr(toks, false)
}
