package main

import (
	"fmt"
	"go/token"
	"math"
	"time"
)

func (m *Machine) get(fr *Frame, o int32) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	k := &fr.fn.consts[-o-1]
	if k.glob == 0 {
		return k.v
	}
	return Value{P: m.globalAddr(k.glob - 1)}
}

// take follows an edge, performing phi moves.
func (m *Machine) take(fr *Frame, e *Edge) {
	switch n := len(e.dst); n {
	case 0:
	case 1:
		fr.regs[e.dst[0]] = m.get(fr, e.src[0])
	default:
		var buf [8]Value
		tmp := buf[:0]
		if n > 8 {
			tmp = make([]Value, 0, n)
		}
		for _, s := range e.src {
			tmp = append(tmp, m.get(fr, s))
		}
		for i, d := range e.dst {
			fr.regs[d] = tmp[i]
		}
	}
	fr.pc = e.pc
}

func (m *Machine) args(fr *Frame, ops []int32, extra int) []Value {
	a := make([]Value, len(ops)+extra)
	for i, o := range ops {
		a[i+extra] = m.get(fr, o)
	}
	return a
}

// loop interprets instructions until the base frame returns or a panic is thrown.
func (m *Machine) loop() (tv Value, thrown bool) {
	defer func() {
		if r := recover(); r != nil {
			switch t := r.(type) {
			case throwSig:
				tv, thrown = t.v, true
				return
			case blockSig:
				m.afterBlock()
				return
			case switchSig:
				m.afterSwitch()
				return
			}
			panic(r)
		}
	}()
	for !m.baseDone {
		fr := m.fr
		if m.ipos != 0 {
			m.ipos = 0
			m.ilog = m.ilog[:0]
		}
		ins := &fr.fn.code[fr.pc]
		m.steps++
		if m.steps&0xfff == 0 {
			if m.steps > m.stepMax && m.noJournal == 0 {
				panic(endSig{endSteps, "step limit"})
			}
			if m.steps&0xffff == 0 && time.Now().After(m.deadline) {
				panic(endSig{endDeadline, "deadline"})
			}
		}
		regs := fr.regs
		switch ins.op {
		case INop:
			fr.pc++
		case IMove:
			regs[ins.dst] = m.get(fr, ins.a)
			fr.pc++
		case IAlloc:
			c := new(Value)
			if k := ins.ti.kind; k == KStruct || k == KArray {
				*c = zero(ins.ti)
			}
			regs[ins.dst] = Value{P: c}
			fr.pc++
		case IBinInt:
			x, y := m.get(fr, ins.a), m.get(fr, ins.b)
			if x.P == nil && y.P == nil {
				var r uint64
				w := ins.w
				switch ins.tok {
				case token.ADD:
					r = (x.N + y.N) & mask(w)
				case token.SUB:
					r = (x.N - y.N) & mask(w)
				case token.MUL:
					r = (x.N * y.N) & mask(w)
				case token.EQL:
					r = b2u(x.N == y.N)
				case token.NEQ:
					r = b2u(x.N != y.N)
				case token.LSS:
					if ins.signed {
						r = b2u(sext64(x.N, w) < sext64(y.N, w))
					} else {
						r = b2u(x.N < y.N)
					}
				case token.LEQ:
					if ins.signed {
						r = b2u(sext64(x.N, w) <= sext64(y.N, w))
					} else {
						r = b2u(x.N <= y.N)
					}
				case token.GTR:
					if ins.signed {
						r = b2u(sext64(x.N, w) > sext64(y.N, w))
					} else {
						r = b2u(x.N > y.N)
					}
				case token.GEQ:
					if ins.signed {
						r = b2u(sext64(x.N, w) >= sext64(y.N, w))
					} else {
						r = b2u(x.N >= y.N)
					}
				case token.AND:
					r = x.N & y.N
				case token.OR:
					r = x.N | y.N
				case token.XOR:
					r = x.N ^ y.N
				case token.AND_NOT:
					r = x.N &^ y.N
				case token.SHL:
					if ins.signed2 && sext64(y.N, ins.w2) < 0 {
						m.throwRT("negative shift amount")
					}
					if y.N < 64 {
						r = (x.N << y.N) & mask(w)
					}
				case token.SHR:
					if ins.signed2 && sext64(y.N, ins.w2) < 0 {
						m.throwRT("negative shift amount")
					}
					if ins.signed {
						c := y.N
						if c > 63 {
							c = 63
						}
						r = uint64(sext64(x.N, w)>>c) & mask(w)
					} else if y.N < 64 {
						r = x.N >> y.N
					}
				case token.QUO, token.REM:
					if y.N == 0 {
						m.throwRT("integer divide by zero")
					}
					op := OpUdiv
					if ins.signed {
						op = OpSdiv
					}
					if ins.tok == token.REM {
						op++
					}
					r = evalDiv(op, x.N, y.N, w)
				default:
					m.unsupported("binop %s", ins.tok)
				}
				regs[ins.dst] = Value{N: r}
			} else {
				fr.regs[ins.dst] = m.symBin(ins, x, y)
			}
			fr.pc++
		case IBinOther:
			x, y := m.get(fr, ins.a), m.get(fr, ins.b)
			v := m.binOther(ins, x, y)
			fr.regs[ins.dst] = v
			fr.pc++
		case INeg:
			x := m.get(fr, ins.a)
			switch {
			case ins.ti.kind == KFloat:
				x = fbits(ins.ti, -fval(ins.ti, x))
			case x.P == nil:
				x.N = (-x.N) & mask(ins.w)
			default:
				x = m.tv(m.tc.Sub(m.tc.Const(ins.w, 0), m.term(x, ins.w)))
			}
			regs[ins.dst] = x
			fr.pc++
		case INotB:
			x := m.get(fr, ins.a)
			if x.P == nil {
				x.N ^= 1
			} else {
				x = m.tv(m.tc.Not(m.term(x, 0)))
			}
			regs[ins.dst] = x
			fr.pc++
		case ICompl:
			x := m.get(fr, ins.a)
			if x.P == nil {
				x.N = ^x.N & mask(ins.w)
			} else {
				x = m.tv(m.tc.BXor(m.term(x, ins.w), m.tc.Const(ins.w, mask(ins.w))))
			}
			regs[ins.dst] = x
			fr.pc++
		case ILoad:
			pv := m.get(fr, ins.a)
			if p, ok := pv.P.(*Value); ok && p.P == nil && !m.roOn {
				regs[ins.dst] = *p
			} else {
				v := m.load(pv, ins.ti)
				fr.regs[ins.dst] = v
			}
			fr.pc++
		case IStore:
			pv := m.get(fr, ins.a)
			v := m.get(fr, ins.b)
			switch p := pv.P.(type) {
			case *Value:
				m.store(p, v)
			case nil:
				m.nilDeref()
			case *SymPtr:
				i := m.concretize(p.idx)
				m.store(&p.elems[i], v)
			default:
				m.unsupported("store through %T", pv.P)
			}
			fr.pc++
		case IField:
			x := m.get(fr, ins.a)
			regs[ins.dst] = x.P.(Agg)[ins.k]
			fr.pc++
		case IFieldAddr:
			x := m.get(fr, ins.a)
			switch p := x.P.(type) {
			case *Value:
				a, ok := p.P.(Agg)
				if !ok {
					m.unsupported("field address into %T", p.P)
				}
				regs[ins.dst] = Value{P: &a[ins.k]}
			case nil:
				m.nilDeref()
			case *SymPtr:
				i := m.concretize(p.idx)
				fr.regs[ins.dst] = Value{P: &p.elems[i].P.(Agg)[ins.k]}
			default:
				m.unsupported("field address of %T", x.P)
			}
			fr.pc++
		case IIndex: // array value
			x, y := m.get(fr, ins.a), m.get(fr, ins.b)
			a := x.P.(Agg)
			i, t := m.index(y, ins.w2, ins.signed2, len(a))
			if t != nil {
				v := m.symLoad(&SymPtr{a, t}, ins.ti2)
				fr.regs[ins.dst] = v
			} else {
				fr.regs[ins.dst] = a[i]
			}
			fr.pc++
		case IIndexAddrSlice:
			x, y := m.get(fr, ins.a), m.get(fr, ins.b)
			s, _ := x.P.([]Value)
			if y.P == nil {
				i := y.N
				if ins.signed2 {
					i = uint64(sext64(i, ins.w2))
				}
				if i >= uint64(len(s)) {
					m.throwRT(fmt.Sprintf("index out of range [%d] with length %d", int64(i), len(s)))
				}
				regs[ins.dst] = Value{P: &s[i]}
			} else {
				i, t := m.index(y, ins.w2, ins.signed2, len(s))
				if t != nil {
					fr.regs[ins.dst] = Value{P: &SymPtr{s, t}}
				} else {
					fr.regs[ins.dst] = Value{P: &s[i]}
				}
			}
			fr.pc++
		case IIndexAddrArr:
			x, y := m.get(fr, ins.a), m.get(fr, ins.b)
			var s []Value
			switch p := x.P.(type) {
			case *Value:
				a, ok := p.P.(Agg)
				if !ok {
					m.unsupported("index address into %T", p.P)
				}
				s = a
			case nil:
				m.nilDeref()
			case *SymPtr:
				i := m.concretize(p.idx)
				s = p.elems[i].P.(Agg)
			default:
				m.unsupported("index address of %T", x.P)
			}
			i, t := m.index(y, ins.w2, ins.signed2, len(s))
			if t != nil {
				fr.regs[ins.dst] = Value{P: &SymPtr{s, t}}
			} else {
				fr.regs[ins.dst] = Value{P: &s[i]}
			}
			fr.pc++
		case ILookupStr:
			x, y := m.get(fr, ins.a), m.get(fr, ins.b)
			i, t := m.index(y, ins.w2, ins.signed2, strLen(x))
			if t != nil {
				v := m.symLoad(&SymPtr{strBytes(x), t}, typeByte)
				fr.regs[ins.dst] = v
			} else if s, ok := x.P.(string); ok {
				fr.regs[ins.dst] = Value{N: uint64(s[i])}
			} else {
				fr.regs[ins.dst] = x.P.(*SymStr).b[i]
			}
			fr.pc++
		case ILookupMap:
			x, y := m.get(fr, ins.a), m.get(fr, ins.b)
			mp, _ := x.P.(*Map)
			v, ok := m.mapGet(mp, y)
			if !ok {
				v = zero(ins.ti.elem)
			}
			if ins.commaOk {
				v = Value{P: Tup{v, mkBool(ok)}}
			}
			fr.regs[ins.dst] = v
			fr.pc++
		case IMapUpdate:
			x, k, v := m.get(fr, ins.a), m.get(fr, ins.b), m.get(fr, ins.c)
			mp, _ := x.P.(*Map)
			if mp == nil {
				m.throwRT("assignment to entry in nil map")
			}
			m.mapSet(mp, k, v)
			fr.pc++
		case IConvInt:
			x := m.get(fr, ins.a)
			if x.P == nil {
				if ins.w2 > ins.w && ins.signed {
					x.N = uint64(sext64(x.N, ins.w)) & mask(ins.w2)
				} else {
					x.N &= mask(ins.w2)
				}
				regs[ins.dst] = x
			} else {
				regs[ins.dst] = m.tv(m.convInt(m.term(x, ins.w), ins.signed, ins.w2))
			}
			fr.pc++
		case IConvert:
			x := m.get(fr, ins.a)
			v := m.convert(x, ins.ti, ins.ti2)
			fr.regs[ins.dst] = v
			fr.pc++
		case IMakeIface:
			regs[ins.dst] = Value{P: &Iface{ins.ti, m.get(fr, ins.a)}}
			fr.pc++
		case ITypeAssert:
			x := m.get(fr, ins.a)
			v := m.typeAssert(ins, x)
			fr.regs[ins.dst] = v
			fr.pc++
		case ICallStatic:
			a := m.args(fr, ins.args, 0)
			fr.pc++
			fn := ins.fn
			if fn.intr == nil && fn.model == nil && !fn.isPkgInit {
				m.push(fn, nil, a)
				m.fr.retDst = ins.dst
				break
			}
			m.enterCall(fr, fn, nil, a, ins.dst)
		case ICallDyn:
			fv, _ := m.get(fr, ins.a).P.(*Func)
			a := m.args(fr, ins.args, 0)
			if fv == nil {
				m.nilDeref()
			}
			fr.pc++
			if fv.builtin != "" {
				m.unsupported("dynamic builtin")
			}
			m.enterCall(fr, fv.fn, fv.bindings, a, ins.dst)
		case ICallInvoke:
			x := m.get(fr, ins.a)
			ifc, _ := x.P.(*Iface)
			if ifc == nil {
				m.nilDeref()
			}
			a := m.args(fr, ins.args, 1)
			a[0] = ifc.v
			fn := m.p.method(ifc.t, ins.name)
			if fn == nil {
				m.unsupported("no method %s on %s", ins.name, ifc.t)
			}
			fr.pc++
			m.enterCall(fr, fn, nil, a, ins.dst)
		case ICallBuiltin:
			a := m.args(fr, ins.args, 0)
			v := m.builtin(ins, a)
			fr = m.fr
			if ins.dst >= 0 {
				fr.regs[ins.dst] = v
			}
			fr.pc++
		case IDefer:
			d := &deferNode{next: fr.defers, args: m.args(fr, ins.args, 0), ti: ins.ti, ti2: ins.ti2}
			switch OpCode(ins.k) {
			case ICallStatic:
				d.fn = ins.fn
			case ICallDyn:
				d.fv, _ = m.get(fr, ins.a).P.(*Func)
				if d.fv == nil {
					m.nilDeref()
				}
			case ICallInvoke:
				x := m.get(fr, ins.a)
				ifc, _ := x.P.(*Iface)
				if ifc == nil {
					m.nilDeref()
				}
				d.fn = m.p.method(ifc.t, ins.name)
				d.args = append([]Value{ifc.v}, d.args...)
			case ICallBuiltin:
				d.bi = ins.name
			}
			fr.defers = d
			fr.pc++
		case IRunDefers:
			if d := fr.defers; d != nil {
				fr.defers = d.next
				m.runDeferred(d) // pc unchanged: re-executed until no defers remain
			} else {
				fr.pc++
			}
		case IMakeClosure:
			regs[ins.dst] = Value{P: &Func{fn: ins.fn, bindings: m.args(fr, ins.args, 0)}}
			fr.pc++
		case IGo:
			a := m.args(fr, ins.args, 0)
			fn, bind := ins.fn, []Value(nil)
			switch OpCode(ins.k) {
			case ICallDyn:
				fv, _ := m.get(fr, ins.a).P.(*Func)
				if fv == nil {
					m.nilDeref()
				}
				fn, bind = fv.fn, fv.bindings
			case ICallInvoke:
				ifc, _ := m.get(fr, ins.a).P.(*Iface)
				if ifc == nil {
					m.nilDeref()
				}
				fn = m.p.method(ifc.t, ins.name)
				a = append([]Value{ifc.v}, a...)
			case ICallBuiltin:
				m.unsupported("go with a builtin")
			}
			m.goStart(fn, bind, a)
			fr.pc++
		case IMakeChan:
			n := m.makeLen(m.get(fr, ins.a), ins.w, ins.signed, "makechan: size out of range")
			fr.regs[ins.dst] = Value{P: &Chan{ti: ins.ti, cap: n}}
			fr.pc++
		case IRecv:
			x := m.get(fr, ins.a)
			_, v, ok := m.chanOp([]chanCase{{ch: m.chanOf(x)}}, true)
			if ins.commaOk {
				v = Value{P: Tup{v, mkBool(ok)}}
			}
			fr.regs[ins.dst] = v
			fr.pc++
		case ISend:
			m.chanOp([]chanCase{{ch: m.chanOf(m.get(fr, ins.a)), send: true, val: m.get(fr, ins.b)}}, true)
			fr.pc++
		case ISelect:
			cs := make([]chanCase, len(ins.args)/3)
			for i := range cs {
				cs[i].ch = m.chanOf(m.get(fr, ins.args[3*i]))
				if ins.args[3*i+1] != noOperand {
					cs[i].send, cs[i].val = true, m.get(fr, ins.args[3*i+1])
				}
			}
			k, v, ok := m.chanOp(cs, ins.commaOk)
			t := Tup{Value{N: uint64(int64(k))}, mkBool(ok)}
			for i := range cs {
				if !cs[i].send {
					if i == k {
						t = append(t, v)
					} else {
						t = append(t, zero(ins.ti.fields[len(t)]))
					}
				}
			}
			fr.regs[ins.dst] = Value{P: t}
			fr.pc++
		case ISliceToArr:
			x := m.get(fr, ins.a)
			s, _ := x.P.([]Value)
			n := ins.ti.elem.n
			if len(s) < n {
				m.throwRT(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			if x.P == nil {
				fr.regs[ins.dst] = Value{}
			} else {
				c := new(Value)
				*c = Value{P: Agg(s[:n:n])}
				fr.regs[ins.dst] = Value{P: c}
			}
			fr.pc++
		case IMakeMap:
			regs[ins.dst] = Value{P: newMap(ins.ti)}
			fr.pc++
		case IMakeSlice:
			l := m.makeLen(m.get(fr, ins.a), ins.w, ins.signed, "makeslice: len out of range")
			c := l
			if ins.b != ins.a {
				c = m.makeLen(m.get(fr, ins.b), ins.w2, ins.signed2, "makeslice: cap out of range")
			}
			if l > c {
				m.throwRT("makeslice: cap out of range")
			}
			s := make([]Value, l, c)
			if k := ins.ti.kind; k == KStruct || k == KArray {
				s2 := s[:c]
				for i := range s2 {
					s2[i] = zero(ins.ti)
				}
			}
			fr.regs[ins.dst] = Value{P: s}
			fr.pc++
		case ISlice:
			v := m.slice(fr, ins)
			fr.regs[ins.dst] = v
			fr.pc++
		case IExtract:
			regs[ins.dst] = m.get(fr, ins.a).P.(Tup)[ins.k]
			fr.pc++
		case IRange:
			x := m.get(fr, ins.a)
			it := &iter{}
			if ins.ti.kind == KString {
				it.str = strBytes(x)
				it.isStr = true
			} else {
				it.m, _ = x.P.(*Map)
				if m.roOn && it.m != nil {
					m.roLoad(it.m)
				}
			}
			regs[ins.dst] = Value{P: it}
			fr.pc++
		case INext:
			it := m.get(fr, ins.a).P.(*iter)
			v := m.next(fr, it)
			fr.regs[ins.dst] = v
			fr.pc++
		case IJump:
			m.take(fr, ins.e0)
		case IIf:
			c := m.get(fr, ins.a)
			b := c.N != 0
			if t, ok := c.P.(*Term); ok {
				b = m.decide(t)
			}
			if b {
				m.take(fr, ins.e0)
			} else {
				m.take(fr, ins.e1)
			}
		case IReturn:
			var v Value
			switch len(ins.args) {
			case 0:
			case 1:
				v = m.get(fr, ins.args[0])
			default:
				t := make(Tup, len(ins.args))
				for i, o := range ins.args {
					t[i] = m.get(fr, o)
				}
				v = Value{P: t}
			}
			m.ret(v)
		case IPanic:
			v := m.get(fr, ins.a)
			if v.P == nil {
				m.throwRT("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			m.throw(v)
		default:
			m.unsupported("%s in %s", ins.name, m.where())
		}
	}
	return Value{}, false
}

// enterCall calls fn from fr (whose pc is already past the call). Intrinsics
// re-execute the call instruction when they fork, so pc is rewound for them.
func (m *Machine) enterCall(fr *Frame, fn *Fn, bind []Value, a []Value, dst int32) {
	if fn.intr != nil {
		fr.pc-- // decisions inside re-execute this instruction
		v := fn.intr(m, fn, a)
		m.inMark = len(m.inputs)
		fr.pc++
		if m.pushed {
			m.pushed = false
			m.fr.retDst = dst
			return
		}
		if dst >= 0 {
			fr.regs[dst] = v
		}
		return
	}
	if fn.isPkgInit {
		return
	}
	if fn.model != nil {
		fn = fn.model
	}
	m.push(fn, bind, a)
	m.fr.retDst = dst
}

// index checks the bounds of an index operand; returns a concrete index or an
// in-range symbolic one.
func (m *Machine) index(y Value, w uint8, signed bool, n int) (int, *Term) {
	if t, ok := y.P.(*Term); ok {
		tc := m.tc
		var in *Term
		if n == 0 {
			in = tc.F
		} else if w < 63 && uint64(n) > mask(w) && !signed {
			in = tc.T
		} else {
			if w < 63 && uint64(n) > mask(w) {
				in = tc.Sle(tc.Const(w, 0), t)
			} else {
				in = tc.Ult(t, tc.Const(w, uint64(n)))
			}
		}
		if !m.decide(in) {
			m.throwRT(fmt.Sprintf("index out of range with length %d", n))
		}
		return 0, t
	}
	i := int64(y.N)
	if signed {
		i = sext64(y.N, w)
	}
	if i < 0 || i >= int64(n) {
		m.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i), nil
}

const allocHard = 1 << 24

// allocCells bounds what is represented of a symbolic size.
const allocCells = 1 << 18

func (m *Machine) makeLen(v Value, w uint8, signed bool, msg string) int {
	if t, ok := v.P.(*Term); ok {
		var t64 *Term
		if signed {
			t64 = m.tc.Sext(t, 64)
		} else {
			t64 = m.tc.Zext(t, 64)
		}
		lim := m.allocLimit
		if lim <= 0 {
			lim = allocHard
		}
		if !m.decide(m.tc.Ult(t64, m.tc.Const(64, uint64(lim)+1))) {
			if m.decide(m.tc.Ult(m.tc.Const(64, 1<<47), t64)) {
				m.throwRT(msg)
			}
			panic(endSig{endViolation, fmt.Sprintf("alloc: allocation larger than %d at %s", lim, m.where())})
		}
		if !m.decide(m.tc.Ult(t64, m.tc.Const(64, allocCells))) {
			m.unsupported("allocation of more than %d elements", allocCells)
		}
		return int(m.concretize(t64))
	}
	n := int64(v.N)
	if signed {
		n = sext64(v.N, w)
	}
	if n < 0 || n > 1<<47 {
		m.throwRT(msg)
	}
	lim := m.allocLimit
	if lim <= 0 {
		lim = allocHard
	}
	if n > lim {
		panic(endSig{endViolation, fmt.Sprintf("alloc: allocation larger than %d at %s", lim, m.where())})
	}
	if n > 1<<22 {
		m.unsupported("allocation of more than %d elements", 1<<22)
	}
	return int(n)
}

func (m *Machine) convInt(t *Term, signed bool, w2 uint8) *Term {
	if t.w == w2 {
		return t
	}
	if t.w > w2 {
		return m.tc.Extract(t, 0, w2)
	}
	if signed {
		return m.tc.Sext(t, w2)
	}
	return m.tc.Zext(t, w2)
}

// symBin: integer/bool operation with at least one symbolic operand.
func (m *Machine) symBin(ins *Ins, x, y Value) Value {
	tc := m.tc
	w := ins.w
	a := m.term(x, w)
	switch ins.tok {
	case token.SHL, token.SHR:
		b := m.term(y, ins.w2)
		if ins.signed2 && !b.isConst() {
			if m.decide(tc.Slt(b, tc.Const(ins.w2, 0))) {
				m.throwRT("negative shift amount")
			}
		} else if ins.signed2 && sext64(b.k, ins.w2) < 0 {
			m.throwRT("negative shift amount")
		}
		// bring the count to width w, saturating
		var cnt *Term
		if ins.w2 > w {
			big := tc.Not(tc.Ult(b, tc.Const(ins.w2, uint64(w))))
			cnt = tc.Ite(big, tc.Const(w, uint64(w)), tc.Extract(b, 0, w))
		} else {
			cnt = tc.Zext(b, w)
		}
		if ins.tok == token.SHL {
			return m.tv(tc.Shl(a, cnt))
		}
		if ins.signed {
			return m.tv(tc.Ashr(a, cnt))
		}
		return m.tv(tc.Lshr(a, cnt))
	}
	b := m.term(y, w)
	var r *Term
	switch ins.tok {
	case token.ADD:
		r = tc.Add(a, b)
	case token.SUB:
		r = tc.Sub(a, b)
	case token.MUL:
		r = tc.Mul(a, b)
	case token.EQL:
		r = tc.Eq(a, b)
	case token.NEQ:
		r = tc.Not(tc.Eq(a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if ins.tok == token.GTR || ins.tok == token.GEQ {
			a, b = b, a
		}
		strict := ins.tok == token.LSS || ins.tok == token.GTR
		switch {
		case ins.signed && strict:
			r = tc.Slt(a, b)
		case ins.signed:
			r = tc.Sle(a, b)
		case strict:
			r = tc.Ult(a, b)
		default:
			r = tc.Ule(a, b)
		}
	case token.AND:
		if w == 0 {
			r = tc.And(a, b)
		} else {
			r = tc.BAnd(a, b)
		}
	case token.OR:
		if w == 0 {
			r = tc.Or(a, b)
		} else {
			r = tc.BOr(a, b)
		}
	case token.XOR:
		r = tc.BXor(a, b)
	case token.AND_NOT:
		r = tc.BAnd(a, tc.BXor(b, tc.Const(w, mask(w))))
	case token.QUO, token.REM:
		if m.decide(tc.Eq(b, tc.Const(w, 0))) {
			m.throwRT("integer divide by zero")
		}
		op := OpUdiv
		if ins.signed {
			op = OpSdiv
		}
		if ins.tok == token.REM {
			op++
		}
		r = tc.DivRem(op, a, b)
	default:
		m.unsupported("symbolic binop %s", ins.tok)
	}
	return m.tv(r)
}

func (m *Machine) binOther(ins *Ins, x, y Value) Value {
	switch ins.ti.kind {
	case KString:
		switch ins.tok {
		case token.ADD:
			return m.concat(x, y)
		case token.EQL:
			return m.tv(m.strEq(x, y))
		case token.NEQ:
			return m.tv(m.tc.Not(m.strEq(x, y)))
		case token.LSS:
			return m.tv(m.strLess(x, y))
		case token.GTR:
			return m.tv(m.strLess(y, x))
		case token.LEQ:
			return m.tv(m.tc.Not(m.strLess(y, x)))
		case token.GEQ:
			return m.tv(m.tc.Not(m.strLess(x, y)))
		}
	case KFloat:
		a, b := fval(ins.ti, m.fconc(x)), fval(ins.ti, m.fconc(y))
		switch ins.tok {
		case token.ADD:
			return fbits(ins.ti, a+b)
		case token.SUB:
			return fbits(ins.ti, a-b)
		case token.MUL:
			return fbits(ins.ti, a*b)
		case token.QUO:
			return fbits(ins.ti, a/b)
		case token.EQL:
			return mkBool(a == b)
		case token.NEQ:
			return mkBool(a != b)
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	default:
		switch ins.tok {
		case token.EQL:
			return m.tv(m.valEq(x, y))
		case token.NEQ:
			return m.tv(m.tc.Not(m.valEq(x, y)))
		}
	}
	m.unsupported("binop %s on %s", ins.tok, ins.ti)
	return Value{}
}

func (m *Machine) fconc(v Value) Value {
	if _, ok := v.P.(*Term); ok {
		m.unsupported("symbolic float")
	}
	return v
}

func (m *Machine) concat(x, y Value) Value {
	if strLen(x) == 0 {
		return y
	}
	if strLen(y) == 0 {
		return x
	}
	a, ok1 := x.P.(string)
	b, ok2 := y.P.(string)
	if ok1 && ok2 {
		return Value{P: a + b}
	}
	r := append(append(make([]Value, 0, strLen(x)+strLen(y)), strBytes(x)...), strBytes(y)...)
	return Value{P: &SymStr{r}}
}

func (m *Machine) bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return m.tc.F
	}
	r := m.tc.T
	for i := range a {
		if a[i].P == nil && b[i].P == nil {
			if a[i].N != b[i].N {
				return m.tc.F
			}
		}
	}
	for i := range a {
		if a[i].P == nil && b[i].P == nil {
			continue
		}
		r = m.tc.And(r, m.tc.Eq(m.term(a[i], 8), m.term(b[i], 8)))
	}
	return r
}

func (m *Machine) strEq(x, y Value) *Term {
	a, ok1 := isConcStr(x)
	b, ok2 := isConcStr(y)
	if ok1 && ok2 {
		return m.tc.Bool(a == b)
	}
	if strLen(x) != strLen(y) {
		return m.tc.F
	}
	return m.bytesEq(strBytes(x), strBytes(y))
}

func (m *Machine) bytesLess(a, b []Value) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := m.tc.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(a[i], 8), m.term(b[i], 8)
		r = m.tc.Or(m.tc.Ult(x, y), m.tc.And(m.tc.Eq(x, y), r))
	}
	return r
}

func (m *Machine) strLess(x, y Value) *Term {
	a, ok1 := isConcStr(x)
	b, ok2 := isConcStr(y)
	if ok1 && ok2 {
		return m.tc.Bool(a < b)
	}
	return m.bytesLess(strBytes(x), strBytes(y))
}

// valEq compares two values of one static type.
func (m *Machine) valEq(x, y Value) *Term {
	tc := m.tc
	switch a := x.P.(type) {
	case nil:
		switch b := y.P.(type) {
		case nil:
			return tc.Bool(x.N == y.N)
		case *Term:
			return tc.Eq(tc.Const(b.w, x.N), b)
		case string, *SymStr:
			return tc.Bool(strLen(y) == 0)
		}
		return tc.F
	case *Term:
		if b, ok := y.P.(*Term); ok {
			return tc.Eq(a, b)
		}
		return tc.Eq(a, tc.Const(a.w, y.N))
	case string, *SymStr:
		switch y.P.(type) {
		case nil, string, *SymStr:
			return m.strEq(x, y)
		}
		return tc.F
	case Agg:
		b, ok := y.P.(Agg)
		if !ok || len(a) != len(b) {
			return tc.F
		}
		r := tc.T
		for i := range a {
			r = tc.And(r, m.valEq(a[i], b[i]))
		}
		return r
	case *Iface:
		b, ok := y.P.(*Iface)
		if !ok || a.t != b.t {
			return tc.F
		}
		switch a.t.kind {
		case KSlice, KMap, KFunc:
			m.throwRT("comparing uncomparable type " + a.t.String())
		}
		if a == b {
			return tc.T
		}
		if a.t.kind == KFloat {
			return tc.Bool(fval(a.t, a.v) == fval(b.t, b.v))
		}
		return m.valEq(a.v, b.v)
	case *Value:
		b, ok := y.P.(*Value)
		return tc.Bool(ok && a == b)
	case *Map:
		b, ok := y.P.(*Map)
		return tc.Bool(ok && a == b)
	case *SymPtr:
		return m.valEq(Value{P: &a.elems[m.concretize(a.idx)]}, y)
	case []Value, *Func:
		return tc.Bool(y.P != nil && func() bool {
			f, ok1 := a.(*Func)
			g, ok2 := y.P.(*Func)
			return ok1 && ok2 && f == g
		}())
	}
	if y.P == nil {
		return tc.F
	}
	return tc.Bool(x.P == y.P)
}

// ---------- maps ----------

func (m *Machine) mapFind(mp *Map, k Value) int {
	if mp == nil {
		return -1
	}
	if ifc, ok := k.P.(*Iface); ok {
		switch ifc.t.kind {
		case KSlice, KMap, KFunc:
			m.throwRT("hash of unhashable type " + ifc.t.String())
		}
	}
	if ck, ok := mapKey(k); ok {
		if i, ok := mp.idx[ck]; ok {
			return i
		}
		for _, i := range mp.symKeys {
			if mp.live[i] && m.decide(m.valEq(mp.keys[i], k)) {
				return i
			}
		}
		return -1
	}
	for i := range mp.keys {
		if mp.live[i] && m.decide(m.valEq(mp.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapGet(mp *Map, k Value) (Value, bool) {
	if m.roOn && mp != nil {
		m.roLoad(mp)
	}
	i := m.mapFind(mp, k)
	if i < 0 {
		return Value{}, false
	}
	return mp.vals[i], true
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	i := m.mapFind(mp, k)
	if m.roOn {
		m.roCheck(mp)
	}
	if i >= 0 {
		old := mp.vals[i]
		mp.vals[i] = v
		m.onUndo(func() { mp.vals[i] = old })
		return
	}
	n := len(mp.keys)
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, v)
	mp.live = append(mp.live, true)
	mp.n++
	ck, conc := mapKey(k)
	if conc {
		mp.idx[ck] = n
	} else {
		mp.symKeys = append(mp.symKeys, n)
	}
	m.onUndo(func() {
		mp.keys = mp.keys[:n]
		mp.vals = mp.vals[:n]
		mp.live = mp.live[:n]
		mp.n--
		if conc {
			delete(mp.idx, ck)
		} else {
			mp.symKeys = mp.symKeys[:len(mp.symKeys)-1]
		}
	})
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	i := m.mapFind(mp, k)
	if mp != nil && m.roOn {
		m.roCheck(mp)
	}
	if i < 0 {
		return
	}
	mp.live[i] = false
	mp.n--
	ck, conc := mapKey(mp.keys[i])
	if conc {
		delete(mp.idx, ck)
	}
	m.onUndo(func() {
		mp.live[i] = true
		mp.n++
		if conc {
			mp.idx[ck] = i
		}
	})
}

func (m *Machine) mapClear(mp *Map) {
	for i := range mp.keys {
		if mp.live[i] {
			m.mapDelete(mp, mp.keys[i])
		}
	}
}

type iter struct {
	m     *Map
	pos   int
	seen  uint64 // map-order mode: visited entries
	str   []Value
	isStr bool
}

func (m *Machine) setIter(it *iter, pos int, seen uint64) {
	op, os := it.pos, it.seen
	it.pos, it.seen = pos, seen
	m.onUndo(func() { it.pos, it.seen = op, os })
}

func (m *Machine) next(fr *Frame, it *iter) Value {
	if it.isStr {
		if it.pos >= len(it.str) {
			return Value{P: Tup{mkBool(false), Value{}, Value{}}}
		}
		r, n := m.decodeRune(it.str[it.pos:])
		p := it.pos
		m.setIter(it, p+n, 0)
		return Value{P: Tup{mkBool(true), mkInt(p), r}}
	}
	mp := it.m
	if mp == nil {
		return Value{P: Tup{mkBool(false), Value{}, Value{}}}
	}
	if m.mapOrder > 0 && fr.fn.anyOrder && len(mp.keys) <= 64 {
		var c []int
		for i := range mp.keys {
			if mp.live[i] && it.seen>>uint(i)&1 == 0 {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return Value{P: Tup{mkBool(false), Value{}, Value{}}}
		}
		i := c[m.choose(len(c))]
		m.setIter(it, 0, it.seen|1<<uint(i))
		return Value{P: Tup{mkBool(true), mp.keys[i], mp.vals[i]}}
	}
	i := it.pos
	for i < len(mp.keys) && !mp.live[i] {
		i++
	}
	if i >= len(mp.keys) {
		m.setIter(it, i, 0)
		return Value{P: Tup{mkBool(false), Value{}, Value{}}}
	}
	m.setIter(it, i+1, 0)
	return Value{P: Tup{mkBool(true), mp.keys[i], mp.vals[i]}}
}

// ---------- type assertions ----------

func (m *Machine) typeAssert(ins *Ins, x Value) Value {
	ifc, _ := x.P.(*Iface)
	ok := false
	if ifc != nil {
		if ins.ti.kind == KIface {
			ok = implements(ifc.t, ins.ti)
		} else {
			ok = ifc.t == ins.ti
		}
	}
	var v Value
	if ok {
		if ins.ti.kind == KIface {
			v = x
		} else {
			v = ifc.v
		}
	} else if ins.commaOk {
		v = zero(ins.ti)
	} else {
		d := "nil"
		if ifc != nil {
			d = ifc.t.String()
		}
		m.throwRT("interface conversion: interface is " + d + ", not " + ins.ti.String())
	}
	if ins.commaOk {
		return Value{P: Tup{v, mkBool(ok)}}
	}
	return v
}

// ---------- slicing ----------

func (m *Machine) sliceIdx(v Value, w int32) *Term {
	signed := w < 0
	if signed {
		w = -w
	}
	t := m.term(v, uint8(w))
	if signed {
		return m.tc.Sext(t, 64)
	}
	return m.tc.Zext(t, 64)
}

func (m *Machine) slice(fr *Frame, ins *Ins) Value {
	x := m.get(fr, ins.a)
	var n, c int
	var s []Value
	isStr := false
	switch ins.ti.kind {
	case KString:
		n = strLen(x)
		c = n
		isStr = true
	case KSlice:
		s, _ = x.P.([]Value)
		n, c = len(s), cap(s)
	case KPtr:
		switch p := x.P.(type) {
		case *Value:
			s = p.P.(Agg)
		case nil:
			m.nilDeref()
		default:
			m.unsupported("slice of %T", x.P)
		}
		n, c = len(s), len(s)
		s = s[:n:n]
	default:
		m.unsupported("slice of %s", ins.ti)
	}
	lo, hi, mx := int64(0), int64(n), int64(c)
	bound := func(o int32, w int32) (int64, bool) {
		if o == noOperand {
			return 0, false
		}
		v := m.get(fr, o)
		if v.P == nil {
			if w < 0 {
				return sext64(v.N, uint8(-w)), true
			}
			if v.N > math.MaxInt64 {
				return -1, true
			}
			return int64(v.N), true
		}
		t := m.sliceIdx(v, w)
		if !m.decide(m.tc.Ule(t, m.tc.Const(64, uint64(c)))) {
			m.throwRT(fmt.Sprintf("slice bounds out of range with capacity %d", c))
		}
		return int64(m.concretize(t)), true
	}
	if v, ok := bound(ins.d, ins.args[2]); ok {
		mx = v
	}
	if v, ok := bound(ins.c, ins.args[1]); ok {
		hi = v
	}
	if v, ok := bound(ins.b, ins.args[0]); ok {
		lo = v
	}
	if mx < 0 || mx > int64(c) || hi < 0 || hi > mx || lo < 0 || lo > hi {
		m.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
	}
	if isStr {
		return substr(x, int(lo), int(hi))
	}
	if s == nil {
		return Value{}
	}
	return Value{P: s[lo:hi:mx]}
}

func substr(x Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	if s, ok := x.P.(string); ok {
		return Value{P: s[lo:hi]}
	}
	return mkStrBytesNoCopy(x.P.(*SymStr).b[lo:hi])
}

func mkStrBytesNoCopy(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].P != nil {
			return Value{P: &SymStr{b[:len(b):len(b)]}}
		}
	}
	s := make([]byte, len(b))
	for i := range b {
		s[i] = byte(b[i].N)
	}
	return Value{P: string(s)}
}
