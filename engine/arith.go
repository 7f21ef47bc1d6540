package main

import (
	"fmt"
	"strings"
)

// Handling of queries with wide division, remainder or multiplication, which
// bit-blasting decides slowly: remainders of one value by several constants are
// expressed through the remainder by their least common multiple, small
// candidate assignments are tried, remainders are abstracted (sound for UNSAT),
// and a linear integer encoding is used when bit-blasting times out.

func heavyTerm(t *Term, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	switch t.op {
	case OpMul, OpUdiv, OpUrem, OpSdiv, OpSrem:
		if t.w > 8 {
			return true
		}
	}
	return heavyTerm(t.a, seen) || heavyTerm(t.b, seen) || heavyTerm(t.c, seen)
}

func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	collect(t.a, seen, f)
	collect(t.b, seen, f)
	collect(t.c, seen, f)
}

// Rebuild makes t again with new operands.
func (c *TermCtx) Rebuild(t, a, b, d *Term) *Term {
	switch t.op {
	case OpConst, OpVar:
		return t
	case OpNot:
		return c.Not(a)
	case OpAnd:
		return c.And(a, b)
	case OpOr:
		return c.Or(a, b)
	case OpIte:
		return c.Ite(a, b, d)
	case OpEq:
		return c.Eq(a, b)
	case OpUlt:
		return c.Ult(a, b)
	case OpUle:
		return c.Ule(a, b)
	case OpSlt:
		return c.Slt(a, b)
	case OpSle:
		return c.Sle(a, b)
	case OpAdd:
		return c.Add(a, b)
	case OpSub:
		return c.Sub(a, b)
	case OpMul:
		return c.Mul(a, b)
	case OpUdiv, OpUrem, OpSdiv, OpSrem:
		return c.DivRem(t.op, a, b)
	case OpBAnd:
		return c.BAnd(a, b)
	case OpBOr:
		return c.BOr(a, b)
	case OpBXor:
		return c.BXor(a, b)
	case OpShl:
		return c.Shl(a, b)
	case OpLshr:
		return c.Lshr(a, b)
	case OpAshr:
		return c.Ashr(a, b)
	case OpZext:
		return c.Zext(a, t.w)
	case OpSext:
		return c.Sext(a, t.w)
	case OpExtract:
		return c.Extract(a, uint8(t.k), t.w)
	}
	panic("rebuild")
}

// Subst replaces terms bottom-up: f is asked for every rebuilt term.
func (c *TermCtx) Subst(t *Term, memo map[*Term]*Term, f func(old, cur *Term) *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := memo[t]; ok {
		return r
	}
	a, b, d := c.Subst(t.a, memo, f), c.Subst(t.b, memo, f), c.Subst(t.c, memo, f)
	r := t
	if a != t.a || b != t.b || d != t.c {
		r = c.Rebuild(t, a, b, d)
	}
	r = f(t, r)
	memo[t] = r
	return r
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

type remKey struct {
	x  *Term
	op Op
}

// groupRems rewrites x%d into (x%L)%d, L the least common multiple of all constants x is reduced by.
func (s *Solver) groupRems(ts []*Term) []*Term {
	l := map[remKey]uint64{}
	cnt := map[remKey]int{}
	seen := map[*Term]bool{}
	for _, t := range ts {
		collect(t, seen, func(t *Term) {
			if (t.op == OpUrem || t.op == OpSrem) && t.b.isConst() && t.w > 8 {
				d := uint64(sext64(t.b.k, t.w))
				if d == 0 || d >= 1<<31 || t.w < 64 && d >= 1<<(t.w-2) {
					return
				}
				k := remKey{t.a, t.op}
				if l[k] == 0 {
					l[k] = d
				} else {
					n := l[k] / gcd(l[k], d) * d
					if n >= 1<<31 || t.w < 64 && n >= 1<<(t.w-2) {
						return
					}
					l[k] = n
				}
				cnt[k]++
			}
		})
	}
	memo := map[*Term]*Term{}
	r := make([]*Term, len(ts))
	for i, t := range ts {
		r[i] = s.tc.Subst(t, memo, func(old, cur *Term) *Term {
			if cur.op != OpUrem && cur.op != OpSrem || !cur.b.isConst() {
				return cur
			}
			k := remKey{cur.a, cur.op}
			L := l[k]
			if L == 0 || cnt[k] < 2 || cur.b.k == L || L%cur.b.k != 0 {
				return cur
			}
			return s.tc.mk(cur.op, cur.w, s.tc.mk(cur.op, cur.w, cur.a, s.tc.Const(cur.w, L), nil, 0), cur.b, nil, 0)
		})
	}
	return r
}

func (s *Solver) holds(ts []*Term, m []uint64) bool {
	for _, t := range ts {
		if s.tc.Eval(t, m) == 0 {
			return false
		}
	}
	return true
}

func (s *Solver) varsOf(ts []*Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		collect(t, seen, func(t *Term) {
			if t.op == OpVar {
				r = append(r, t)
			}
		})
	}
	return r
}

var candidates = func() []uint64 {
	var r []uint64
	for i := uint64(0); i < 260; i++ {
		r = append(r, i)
	}
	for _, i := range []uint64{1000, 1001, 1011, 10000, 100000, 1000000, 1 << 31, 1<<31 - 1, 1 << 32, 1<<62 + 3, 1<<63 - 1, 1<<63 - 2, 1 << 63, 1<<63 + 1} {
		r = append(r, i)
	}
	for i := uint64(1); i < 130; i++ {
		r = append(r, -i)
	}
	return r
}()

// checkHeavy decides a query with wide arithmetic.
func (s *Solver) checkHeavy(ts []*Term) (SatResult, []uint64) {
	vars := s.varsOf(ts)
	guess := func(ts []*Term) []uint64 {
		if len(vars) == 1 {
			m := make([]uint64, len(s.tc.vars))
			for _, k := range candidates {
				m[vars[0].k] = k & mask(vars[0].w)
				if s.holds(ts, m) {
					return m
				}
			}
		} else if len(vars) == 2 {
			m := make([]uint64, len(s.tc.vars))
			for i, k := range candidates {
				if i > 40 && i < 250 {
					continue
				}
				for j, k2 := range candidates {
					if j > 40 && j < 250 {
						continue
					}
					m[vars[0].k] = k & mask(vars[0].w)
					m[vars[1].k] = k2 & mask(vars[1].w)
					if s.holds(ts, m) {
						return m
					}
				}
			}
		}
		return nil
	}
	if m := guess(ts); m != nil {
		s.guessed++
		return Sat, m
	}
	g := s.groupRems(ts)
	// abstraction of the remainders
	repl := map[*Term]*Term{}
	var side []*Term
	memo := map[*Term]*Term{}
	abs := make([]*Term, len(g))
	for i, t := range g {
		abs[i] = s.tc.Subst(t, memo, func(old, cur *Term) *Term {
			if (cur.op == OpUrem || cur.op == OpSrem) && cur.b.isConst() && cur.w > 8 && sext64(cur.b.k, cur.w) > 0 {
				v, ok := repl[cur]
				if !ok {
					v = s.freshVar(cur.w, len(repl))
					repl[cur] = v
					tc := s.tc
					zero := tc.Const(cur.w, 0)
					if cur.op == OpUrem {
						side = append(side, tc.Ult(v, cur.b), tc.Ule(v, cur.a))
					} else {
						side = append(side, tc.Slt(v, cur.b), tc.Slt(tc.Const(cur.w, -cur.b.k), v))
						side = append(side, tc.Ite(tc.Sle(zero, cur.a), tc.And(tc.Sle(zero, v), tc.Sle(v, cur.a)), tc.And(tc.Sle(v, zero), tc.Sle(cur.a, v))))
					}
				}
				return v
			}
			return cur
		})
	}
	if len(repl) > 0 {
		r, _ := s.z3set(append(abs, side...), 3000)
		if r == Unsat {
			return Unsat, nil
		}
	}
	r, m := s.z3set(g, 1500)
	if r != Unknown {
		return r, m
	}
	r, m = s.checkLIA(g, s.timeout)
	if r == Sat && !s.holds(ts, m) {
		r = Unknown
	}
	if r != Unknown {
		s.lia++
		return r, m
	}
	return s.z3set(g, s.timeout)
}

func (s *Solver) freshVar(w uint8, i int) *Term {
	k := [2]int{int(w), i}
	if s.fresh == nil {
		s.fresh = map[[2]int]*Term{}
	}
	if v, ok := s.fresh[k]; ok {
		return v
	}
	v := s.tc.mk(OpVar, w, nil, nil, nil, uint64(1<<30+len(s.fresh)))
	s.fresh[k] = v
	return v
}

// checkLIA decides the query over mathematical integers with explicit wrap-around.
func (s *Solver) checkLIA(ts []*Term, timeout uint) (SatResult, []uint64) {
	l := &liaEnc{memo: map[*Term]string{}}
	var body strings.Builder
	for _, t := range ts {
		x := l.boolean(t)
		if l.bad != "" {
			return Unknown, nil
		}
		fmt.Fprintf(&body, "(assert %s)\n", x)
	}
	return s.z3text(l.decls.String()+body.String(), timeout)
}

type liaEnc struct {
	memo  map[*Term]string
	decls strings.Builder
	n     int
	bad   string
}

func (l *liaEnc) name(x, sort string) string {
	l.n++
	n := fmt.Sprintf("a%d", l.n)
	fmt.Fprintf(&l.decls, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, sort, n, x)
	return n
}

func (l *liaEnc) free() string {
	l.n++
	n := fmt.Sprintf("a%d", l.n)
	fmt.Fprintf(&l.decls, "(declare-fun %s () Int)\n", n)
	return n
}

func pow2(w uint8) string {
	switch {
	case w == 64:
		return "18446744073709551616"
	}
	return fmt.Sprint(uint64(1) << w)
}

func num(v int64) string {
	if v < 0 {
		if v == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -v)
	}
	return fmt.Sprint(v)
}

func (l *liaEnc) ranged(x string, w uint8) {
	fmt.Fprintf(&l.decls, "(assert (and (<= (- %s) %s) (< %s %s)))\n", pow2(w-1), x, x, pow2(w-1))
}

// wrap reduces the mathematical value x to a signed w-bit value.
func (l *liaEnc) wrap(x string, w uint8) string {
	r, k := l.free(), l.free()
	fmt.Fprintf(&l.decls, "(assert (= %s (+ %s (* %s %s))))\n", x, r, pow2(w), k)
	l.ranged(r, w)
	return r
}

func (l *liaEnc) uns(t *Term) string {
	x := l.integer(t)
	if t.op == OpZext {
		return x
	}
	return fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", x, x, pow2(t.w), x)
}

func (l *liaEnc) boolean(t *Term) string {
	if x, ok := l.memo[t]; ok {
		return x
	}
	var r string
	switch t.op {
	case OpConst:
		return fmt.Sprint(t.k != 0)
	case OpVar:
		r = fmt.Sprintf("v%d", t.k)
		fmt.Fprintf(&l.decls, "(declare-fun %s () Bool)\n", r)
		l.memo[t] = r
		return r
	case OpNot:
		r = "(not " + l.boolean(t.a) + ")"
	case OpAnd:
		r = "(and " + l.boolean(t.a) + " " + l.boolean(t.b) + ")"
	case OpOr:
		r = "(or " + l.boolean(t.a) + " " + l.boolean(t.b) + ")"
	case OpIte:
		r = "(ite " + l.boolean(t.a) + " " + l.boolean(t.b) + " " + l.boolean(t.c) + ")"
	case OpEq:
		if t.a.w == 0 {
			r = "(= " + l.boolean(t.a) + " " + l.boolean(t.b) + ")"
		} else {
			r = "(= " + l.integer(t.a) + " " + l.integer(t.b) + ")"
		}
	case OpSlt:
		r = "(< " + l.integer(t.a) + " " + l.integer(t.b) + ")"
	case OpSle:
		r = "(<= " + l.integer(t.a) + " " + l.integer(t.b) + ")"
	case OpUlt:
		r = "(< " + l.uns(t.a) + " " + l.uns(t.b) + ")"
	case OpUle:
		r = "(<= " + l.uns(t.a) + " " + l.uns(t.b) + ")"
	default:
		l.bad = opNames[t.op]
		return "false"
	}
	if l.bad != "" {
		return "false"
	}
	r = l.name(r, "Bool")
	l.memo[t] = r
	return r
}

func (l *liaEnc) integer(t *Term) string {
	if l.bad != "" {
		return "0"
	}
	if x, ok := l.memo[t]; ok {
		return x
	}
	var r string
	switch t.op {
	case OpConst:
		return num(sext64(t.k, t.w))
	case OpVar:
		r = fmt.Sprintf("v%d", t.k)
		fmt.Fprintf(&l.decls, "(declare-fun %s () Int)\n", r)
		l.ranged(r, t.w)
		l.memo[t] = r
		return r
	case OpIte:
		r = "(ite " + l.boolean(t.a) + " " + l.integer(t.b) + " " + l.integer(t.c) + ")"
	case OpAdd:
		r = l.wrap("(+ "+l.integer(t.a)+" "+l.integer(t.b)+")", t.w)
	case OpSub:
		r = l.wrap("(- "+l.integer(t.a)+" "+l.integer(t.b)+")", t.w)
	case OpMul:
		if !t.a.isConst() && !t.b.isConst() {
			l.bad = "mul"
			return "0"
		}
		r = l.wrap("(* "+l.integer(t.a)+" "+l.integer(t.b)+")", t.w)
	case OpZext:
		r = l.uns(t.a)
	case OpSext:
		r = l.integer(t.a)
	case OpExtract:
		if t.k != 0 {
			l.bad = "extract"
			return "0"
		}
		r = l.wrap(l.integer(t.a), t.w)
	case OpUdiv, OpUrem, OpSdiv, OpSrem:
		if !t.b.isConst() || sext64(t.b.k, t.w) <= 0 {
			l.bad = "div"
			return "0"
		}
		d := t.b.k
		q, m := l.free(), l.free()
		x := ""
		if t.op == OpUdiv || t.op == OpUrem {
			x = l.name(l.uns(t.a), "Int")
			fmt.Fprintf(&l.decls, "(assert (and (<= 0 %s) (< %s %d)))\n", m, m, d)
		} else {
			x = l.integer(t.a)
			fmt.Fprintf(&l.decls, "(assert (ite (<= 0 %s) (and (<= 0 %s) (< %s %d)) (and (< (- %d) %s) (<= %s 0))))\n", x, m, m, d, d, m, m)
		}
		fmt.Fprintf(&l.decls, "(assert (= %s (+ (* %d %s) %s)))\n", x, d, q, m)
		if t.op == OpUdiv || t.op == OpSdiv {
			r = q
		} else {
			r = m
		}
	default:
		l.bad = opNames[t.op]
		return "0"
	}
	if l.bad != "" {
		return "0"
	}
	r = l.name(r, "Int")
	l.memo[t] = r
	return r
}
