package main

import (
	"fmt"
	"math/bits"
)

// Op is a term operator.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpIte // any width (incl. bool)
	OpEq  // args any width (incl. bool), result bool
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // k = lo
	OpConcat
)

// Term is a hash-consed expression. w==0 means bool.
type Term struct {
	op      Op
	w       uint8
	sv      int32 // -1: no variable, >=0: depends on exactly this 8-bit-or-less variable, -2: other
	id      uint32
	k       uint64
	a, b, c *Term
	truth   *[4]uint64 // for bool terms with sv>=0: satisfying byte values
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

// TermCtx owns terms of one machine.
type TermCtx struct {
	tab       map[tkey]*Term
	all       []*Term
	vars      []*Term
	names     []string
	T, F      *Term
	bytes     [256]*Term
	evalStamp uint32
	evalMark  []uint32
	evalVal   []uint64
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: make(map[tkey]*Term, 1<<16)}
	c.all = append(c.all, nil) // id 0 unused
	c.F = c.mk(OpConst, 0, nil, nil, nil, 0)
	c.T = c.mk(OpConst, 0, nil, nil, nil, 1)
	for i := range c.bytes {
		c.bytes[i] = c.Const(8, uint64(i))
	}
	return c
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func joinSV(x, y int32) int32 {
	if x == -1 {
		return y
	}
	if y == -1 || x == y {
		return x
	}
	return -2
}

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(d), k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: d, k: k, id: uint32(len(c.all))}
	t.sv = -1
	if op == OpVar {
		if w <= 8 {
			t.sv = int32(k)
		} else {
			t.sv = -2
		}
	} else {
		if a != nil {
			t.sv = joinSV(t.sv, a.sv)
		}
		if b != nil {
			t.sv = joinSV(t.sv, b.sv)
		}
		if d != nil {
			t.sv = joinSV(t.sv, d.sv)
		}
	}
	c.tab[key] = t
	c.all = append(c.all, t)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 8 && c.bytes[v] != nil {
		return c.bytes[v]
	}
	return c.mk(OpConst, w, nil, nil, nil, v)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

// NewVar creates (or reuses, by position) a variable.
func (c *TermCtx) NewVar(w uint8, name string) *Term {
	idx := len(c.vars)
	t := c.mk(OpVar, w, nil, nil, nil, uint64(idx))
	c.vars = append(c.vars, t)
	c.names = append(c.names, name)
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	switch a.op {
	case OpUlt:
		return c.mk(OpUle, 0, a.b, a.a, nil, 0)
	case OpUle:
		return c.mk(OpUlt, 0, a.b, a.a, nil, 0)
	case OpSlt:
		return c.mk(OpSle, 0, a.b, a.a, nil, 0)
	case OpSle:
		return c.mk(OpSlt, 0, a.b, a.a, nil, 0)
	}
	return c.mk(OpNot, 0, a, nil, nil, 0)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return c.F
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return c.F
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, a, b, nil, 0)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k != 0 {
			return c.T
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return c.T
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, 0, a, b, nil, 0)
}

func (c *TermCtx) Ite(p, a, b *Term) *Term {
	if p.isConst() {
		if p.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k != 0 {
				return c.Or(p, b)
			}
			return c.And(c.Not(p), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return c.Or(c.Not(p), a)
			}
			return c.And(p, a)
		}
	}
	if p.op == OpNot {
		return c.mk(OpIte, a.w, p.a, b, a, 0)
	}
	return c.mk(OpIte, a.w, p, a, b, 0)
}

// isConstIte reports whether t is an ite tree with constant leaves (small depth).
func constIte(t *Term, depth int) bool {
	if t.isConst() {
		return true
	}
	if t.op == OpIte && depth > 0 {
		return constIte(t.b, depth-1) && constIte(t.c, depth-1)
	}
	return false
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if b.isConst() {
		a, b = b, a
	}
	// a const now if any is
	if a.w == 0 && a.isConst() {
		if a.k != 0 {
			return b
		}
		return c.Not(b)
	}
	if a.isConst() {
		switch b.op {
		case OpZext:
			if a.k > mask(b.a.w) {
				return c.F
			}
			return c.Eq(c.Const(b.a.w, a.k), b.a)
		case OpSext:
			lo := a.k & mask(b.a.w)
			if uint64(sext64(lo, b.a.w))&mask(b.w) != a.k {
				return c.F
			}
			return c.Eq(c.Const(b.a.w, lo), b.a)
		case OpIte:
			if constIte(b, 3) {
				return c.Ite(b.a, c.Eq(a, b.b), c.Eq(a, b.c))
			}
		case OpAdd:
			if b.a.isConst() {
				return c.Eq(c.Const(a.w, a.k-b.a.k), b.b)
			}
		case OpBXor:
			if b.a.isConst() {
				return c.Eq(c.Const(a.w, a.k^b.a.k), b.b)
			}
		}
	} else if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if !a.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, a, b, nil, 0)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if b.isConst() && b.k == 0 {
		return c.F
	}
	if b.isConst() && b.k == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.isConst() && a.k == mask(a.w) {
		return c.F
	}
	if a.op == OpZext && b.isConst() {
		if b.k > mask(a.a.w) {
			return c.T
		}
		return c.Ult(a.a, c.Const(a.a.w, b.k))
	}
	if b.op == OpZext && a.isConst() {
		if a.k >= mask(b.a.w) {
			return c.F
		}
		return c.Ult(c.Const(b.a.w, a.k), b.a)
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(OpUlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	// zero-extended values are non-negative
	if a.op == OpZext && b.isConst() {
		if sext64(b.k, b.w) <= 0 {
			return c.F
		}
		return c.Ult(a, b)
	}
	if b.op == OpZext && a.isConst() {
		if sext64(a.k, a.w) < 0 {
			return c.T
		}
		return c.Ult(a, b)
	}
	if a.op == OpZext && b.op == OpZext {
		return c.Ult(a, b)
	}
	return c.mk(OpSlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *TermCtx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k+b.k)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.k == 0 {
			return b
		}
		if b.op == OpAdd && b.a.isConst() {
			return c.Add(c.Const(a.w, a.k+b.a.k), b.b)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAdd, a.w, a, b, nil, 0)
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k-b.k)
	}
	if b.isConst() {
		return c.Add(a, c.Const(a.w, -b.k))
	}
	return c.mk(OpSub, a.w, a, b, nil, 0)
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k*b.k)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		if a.k == 1 {
			return b
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpMul, a.w, a, b, nil, 0)
}

// Div family. Division by zero is excluded by the machine before.
func (c *TermCtx) DivRem(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		return c.Const(a.w, evalDiv(op, a.k, b.k, a.w))
	}
	if b.isConst() {
		if b.k == 1 {
			if op == OpUdiv || op == OpSdiv {
				return a
			}
			return c.Const(a.w, 0)
		}
		if bits.OnesCount64(b.k) == 1 && (op == OpUdiv || op == OpUrem) {
			sh := uint64(bits.TrailingZeros64(b.k))
			if op == OpUdiv {
				return c.Lshr(a, c.Const(a.w, sh))
			}
			return c.BAnd(a, c.Const(a.w, b.k-1))
		}
		// signed by positive constant of zero-extended value: unsigned
		if (op == OpSdiv || op == OpSrem) && a.op == OpZext && sext64(b.k, b.w) > 0 {
			if op == OpSdiv {
				return c.DivRem(OpUdiv, a, b)
			}
			return c.DivRem(OpUrem, a, b)
		}
	}
	return c.mk(op, a.w, a, b, nil, 0)
}

func evalDiv(op Op, x, y uint64, w uint8) uint64 {
	if y == 0 {
		return 0
	}
	switch op {
	case OpUdiv:
		return x / y
	case OpUrem:
		return x % y
	case OpSdiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == -1 {
			return uint64(-sx) & mask(w)
		}
		return uint64(sx/sy) & mask(w)
	default:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & mask(w)
	}
}

func (c *TermCtx) BAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k&b.k)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		if a.k == mask(a.w) {
			return b
		}
		if b.op == OpZext && a.k&mask(b.a.w) == mask(b.a.w) {
			return b
		}
		if b.op == OpZext {
			return c.Zext(c.BAnd(c.Const(b.a.w, a.k), b.a), b.w)
		}
	} else if a == b {
		return a
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBAnd, a.w, a, b, nil, 0)
}

func (c *TermCtx) BOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k|b.k)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.k == 0 {
			return b
		}
		if a.k == mask(a.w) {
			return a
		}
	} else if a == b {
		return a
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBOr, a.w, a, b, nil, 0)
}

func (c *TermCtx) BXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.w, a.k^b.k)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.k == 0 {
			return b
		}
		if b.op == OpBXor && b.a.isConst() {
			return c.BXor(c.Const(a.w, a.k^b.a.k), b.b)
		}
	} else if a == b {
		return c.Const(a.w, 0)
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBXor, a.w, a, b, nil, 0)
}

// Shifts follow Go/SMT semantics: counts >= width give 0 (or sign fill).
func (c *TermCtx) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if a.isConst() {
			return c.Const(a.w, a.k<<b.k)
		}
	}
	return c.mk(OpShl, a.w, a, b, nil, 0)
}

func (c *TermCtx) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if a.isConst() {
			return c.Const(a.w, a.k>>b.k)
		}
		if a.op == OpZext {
			if b.k >= uint64(a.a.w) {
				return c.Const(a.w, 0)
			}
			return c.Zext(c.Lshr(a.a, c.Const(a.a.w, b.k)), a.w)
		}
	}
	return c.mk(OpLshr, a.w, a, b, nil, 0)
}

func (c *TermCtx) Ashr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		k := b.k
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if a.isConst() {
			return c.Const(a.w, uint64(sext64(a.k, a.w)>>k))
		}
		if a.op == OpZext {
			return c.Lshr(a, b)
		}
	}
	return c.mk(OpAshr, a.w, a, b, nil, 0)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.k)
	}
	if a.op == OpZext {
		return c.mk(OpZext, w, a.a, nil, nil, 0)
	}
	if a.op == OpIte && constIte(a, 2) {
		return c.Ite(a.a, c.Zext(a.b, w), c.Zext(a.c, w))
	}
	return c.mk(OpZext, w, a, nil, nil, 0)
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sext64(a.k, a.w)))
	}
	if a.op == OpZext {
		return c.Zext(a, w)
	}
	if a.op == OpSext {
		return c.mk(OpSext, w, a.a, nil, nil, 0)
	}
	return c.mk(OpSext, w, a, nil, nil, 0)
}

func (c *TermCtx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.k>>lo)
	}
	if a.op == OpZext {
		if lo >= a.a.w {
			return c.Const(w, 0)
		}
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		if lo == 0 {
			return c.Zext(a.a, w)
		}
	}
	if a.op == OpSext && lo == 0 {
		if w <= a.a.w {
			return c.Extract(a.a, 0, w)
		}
		return c.Sext(a.a, w)
	}
	if a.op == OpExtract {
		return c.Extract(a.a, lo+uint8(a.k), w)
	}
	if a.op == OpIte && constIte(a, 3) {
		return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
	}
	if lo == 0 {
		switch a.op {
		case OpBAnd:
			return c.BAnd(c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		case OpBOr:
			return c.BOr(c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		case OpBXor:
			return c.BXor(c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		case OpAdd:
			return c.Add(c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		case OpSub:
			return c.Sub(c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		case OpShl:
			if a.b.isConst() {
				if a.b.k >= uint64(w) {
					return c.Const(w, 0)
				}
				return c.Shl(c.Extract(a.a, 0, w), c.Const(w, a.b.k))
			}
		}
	}
	// byte of (x<<8k | y...) patterns
	switch a.op {
	case OpBOr:
		return c.BOr(c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
	case OpShl:
		if a.b.isConst() {
			s := a.b.k
			if s <= uint64(lo) {
				return c.Extract(a.a, lo-uint8(s), w)
			}
			if s >= uint64(lo+w) {
				return c.Const(w, 0)
			}
		}
	case OpLshr:
		if a.b.isConst() && uint64(lo)+uint64(w)+a.b.k <= uint64(a.w) {
			return c.Extract(a.a, lo+uint8(a.b.k), w)
		}
	}
	return c.mk(OpExtract, w, a, nil, nil, uint64(lo))
}

// Eval evaluates t under an assignment of the variables (missing = 0).
func (c *TermCtx) Eval(t *Term, model []uint64) uint64 {
	c.evalStamp++
	if c.evalStamp == 0 {
		for i := range c.evalMark {
			c.evalMark[i] = 0
		}
		c.evalStamp = 1
	}
	for len(c.evalMark) < len(c.all) {
		c.evalMark = append(c.evalMark, make([]uint32, len(c.all)-len(c.evalMark)+1024)...)
		c.evalVal = append(c.evalVal, make([]uint64, len(c.evalMark)-len(c.evalVal))...)
	}
	return c.eval(t, model)
}

func (c *TermCtx) eval(t *Term, m []uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		if int(t.k) < len(m) {
			return m[t.k] & mask(t.w)
		}
		return 0
	}
	if c.evalMark[t.id] == c.evalStamp {
		return c.evalVal[t.id]
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = 1 - c.eval(t.a, m)
	case OpAnd:
		r = c.eval(t.a, m)
		if r != 0 {
			r = c.eval(t.b, m)
		}
	case OpOr:
		r = c.eval(t.a, m)
		if r == 0 {
			r = c.eval(t.b, m)
		}
	case OpIte:
		if c.eval(t.a, m) != 0 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case OpZext:
		r = c.eval(t.a, m)
	case OpSext:
		r = uint64(sext64(c.eval(t.a, m), t.a.w)) & mask(t.w)
	case OpExtract:
		r = (c.eval(t.a, m) >> t.k) & mask(t.w)
	default:
		x, y := c.eval(t.a, m), c.eval(t.b, m)
		w := t.a.w
		switch t.op {
		case OpEq:
			r = b2u(x == y)
		case OpUlt:
			r = b2u(x < y)
		case OpUle:
			r = b2u(x <= y)
		case OpSlt:
			r = b2u(sext64(x, w) < sext64(y, w))
		case OpSle:
			r = b2u(sext64(x, w) <= sext64(y, w))
		case OpAdd:
			r = x + y
		case OpSub:
			r = x - y
		case OpMul:
			r = x * y
		case OpUdiv, OpUrem, OpSdiv, OpSrem:
			if y == 0 { // SMT-LIB semantics
				switch t.op {
				case OpUdiv:
					r = mask(w)
				case OpSdiv:
					if sext64(x, w) < 0 {
						r = 1
					} else {
						r = mask(w)
					}
				default:
					r = x
				}
			} else {
				r = evalDiv(t.op, x, y, w)
			}
		case OpBAnd:
			r = x & y
		case OpBOr:
			r = x | y
		case OpBXor:
			r = x ^ y
		case OpShl:
			if y < uint64(w) {
				r = x << y
			}
		case OpLshr:
			if y < uint64(w) {
				r = x >> y
			}
		case OpAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sext64(x, w) >> y)
		default:
			panic("eval op")
		}
		r &= mask(t.w)
	}
	c.evalMark[t.id] = c.evalStamp
	c.evalVal[t.id] = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Truth returns the set of byte values of the single variable satisfying t.
func (c *TermCtx) Truth(t *Term) *[4]uint64 {
	if t.truth != nil {
		return t.truth
	}
	var r [4]uint64
	switch {
	case t.op == OpNot:
		s := c.Truth(t.a)
		for i := range r {
			r[i] = ^s[i]
		}
	case (t.op == OpAnd || t.op == OpOr) && t.a.sv == t.sv && t.b.sv == t.sv:
		x, y := c.Truth(t.a), c.Truth(t.b)
		for i := range r {
			if t.op == OpAnd {
				r[i] = x[i] & y[i]
			} else {
				r[i] = x[i] | y[i]
			}
		}
	default:
		v := t.sv
		m := make([]uint64, v+1)
		for i := 0; i < 256; i++ {
			m[v] = uint64(i)
			if c.Eval(t, m) != 0 {
				r[i>>6] |= 1 << uint(i&63)
			}
		}
	}
	t.truth = &r
	return t.truth
}

func (t *Term) String() string { return t.str(0) }

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpZext: "zext", OpSext: "sext", OpExtract: "extract"}

func (t *Term) str(d int) string {
	if d > 6 {
		return "..."
	}
	switch t.op {
	case OpConst:
		return fmt.Sprintf("%d", t.k)
	case OpVar:
		return fmt.Sprintf("v%d", t.k)
	}
	s := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d+1)
		}
	}
	return s + ")"
}
