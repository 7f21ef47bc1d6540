package main

import (
	"go/token"
	"math"
	"unicode/utf8"
	"unsafe"
)

func growCap(old, need int) int {
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	c := old
	for c < need {
		c += (c + 3*256) / 4
	}
	return c
}

// appendVals implements append(s, add...) where add are values (not cells).
func (m *Machine) appendVals(s []Value, add []Value, nilIfEmpty bool) Value {
	n := len(s) + len(add)
	if len(add) == 0 {
		if s == nil {
			return Value{}
		}
		return Value{P: s}
	}
	if n > allocHard {
		m.unsupported("slice too long")
	}
	if n <= cap(s) {
		full := s[:n]
		for i := range add {
			d := &full[len(s)+i]
			m.store(d, add[i])
		}
		return Value{P: full}
	}
	r := make([]Value, n, growCap(cap(s), n))
	for i := range s {
		r[i] = copyVal(s[i])
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	if len(add) > 0 {
		if _, ok := add[0].P.(Agg); ok {
			// spare cells must be well-formed aggregates
			full := r[:cap(r)]
			for i := n; i < len(full); i++ {
				full[i] = zeroLike(add[0])
			}
		}
	}
	return Value{P: r}
}

func zeroLike(v Value) Value {
	if a, ok := v.P.(Agg); ok {
		b := make(Agg, len(a))
		for i := range b {
			b[i] = zeroLike(a[i])
		}
		return Value{P: b}
	}
	return Value{}
}

func (m *Machine) builtin(ins *Ins, a []Value) Value {
	switch ins.name {
	case "Sizeof":
		return mkInt(int(ins.w2))
	case "len":
		switch p := a[0].P.(type) {
		case nil:
			return Value{}
		case string:
			return mkInt(len(p))
		case *SymStr:
			return mkInt(len(p.b))
		case []Value:
			return mkInt(len(p))
		case *Map:
			return mkInt(p.n)
		case *Chan:
			return mkInt(len(p.buf))
		case Agg:
			return mkInt(len(p))
		case *Value:
			return mkInt(len(p.P.(Agg)))
		}
	case "cap":
		switch p := a[0].P.(type) {
		case *Chan:
			return mkInt(p.cap)
		case nil:
			return Value{}
		case []Value:
			return mkInt(cap(p))
		case Agg:
			return mkInt(len(p))
		case *Value:
			return mkInt(len(p.P.(Agg)))
		}
	case "append":
		s, _ := a[0].P.([]Value)
		var add []Value
		switch p := a[1].P.(type) {
		case nil:
		case []Value:
			add = p
		default:
			add = strBytes(a[1])
		}
		return m.appendVals(s, add, false)
	case "copy":
		d, _ := a[0].P.([]Value)
		var s []Value
		switch p := a[1].P.(type) {
		case nil:
		case []Value:
			s = p
		default:
			s = strBytes(a[1])
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		if n > 0 && len(s) > 0 && &d[0] != &s[0] {
			tmp := s[:n]
			if overlaps(d[:n], s[:n]) {
				tmp = make([]Value, n)
				for i := range tmp {
					tmp[i] = copyVal(s[i])
				}
			}
			for i := 0; i < n; i++ {
				m.store(&d[i], tmp[i])
			}
		}
		return mkInt(n)
	case "delete":
		mp, _ := a[0].P.(*Map)
		m.mapDelete(mp, a[1])
		return Value{}
	case "clear":
		switch p := a[0].P.(type) {
		case *Map:
			if m.roOn {
				m.roCheck(p)
			}
			m.mapClear(p)
		case []Value:
			for i := range p {
				m.store(&p[i], zeroLike(p[i]))
			}
		}
		return Value{}
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			var less *Term // x < r
			switch ins.ti.kind {
			case KInt:
				if ins.ti.signed {
					less = m.tc.Slt(m.term(x, ins.ti.w), m.term(r, ins.ti.w))
				} else {
					less = m.tc.Ult(m.term(x, ins.ti.w), m.term(r, ins.ti.w))
				}
				if ins.name == "max" {
					if ins.ti.signed {
						less = m.tc.Slt(m.term(r, ins.ti.w), m.term(x, ins.ti.w))
					} else {
						less = m.tc.Ult(m.term(r, ins.ti.w), m.term(x, ins.ti.w))
					}
				}
				r = m.tv(m.tc.Ite(less, m.term(x, ins.ti.w), m.term(r, ins.ti.w)))
				continue
			case KString:
				less = m.strLess(x, r)
				if ins.name == "max" {
					less = m.strLess(r, x)
				}
				if m.decide(less) {
					r = x
				}
				continue
			case KFloat:
				fx, fr := fval(ins.ti, x), fval(ins.ti, r)
				if ins.name == "min" {
					r = fbits(ins.ti, math.Min(fx, fr))
				} else {
					r = fbits(ins.ti, math.Max(fx, fr))
				}
				continue
			}
			m.unsupported("min/max")
		}
		return r
	case "complex":
		if ins.ti == nil || ins.ti.w != 32 {
			f := &TypeInfo{kind: KFloat, w: 64}
			return Value{P: complex(fval(f, m.fconc(a[0])), fval(f, m.fconc(a[1])))}
		}
		m.unsupported("complex64")
	case "real", "imag":
		c, _ := a[0].P.(complex128)
		if ins.name == "real" {
			return fbits(ins.ti, real(c))
		}
		return fbits(ins.ti, imag(c))
	case "print", "println":
		return Value{}
	case "recover":
		fr := m.fr
		p := fr.caller
		if fr.isDefer && p != nil && !fr.base && p.mode == 1 {
			if p.shared {
				p = p.clone()
				fr.caller = p
			}
			v := p.panicV
			p.mode = 2
			p.panicV = Value{}
			return v
		}
		return Value{}
	case "ssa:wrapnilchk":
		if a[0].P == nil {
			m.nilDeref()
		}
		return a[0]
	case "ssa:deferstack":
		return Value{}
	case "SliceData":
		s, _ := a[0].P.([]Value)
		if cap(s) == 0 {
			return Value{}
		}
		return Value{P: unsafe.SliceData(s)}
	case "StringData":
		b := strBytes(a[0])
		if len(b) == 0 {
			return Value{}
		}
		return Value{P: &b[0]}
	case "String":
		n := int(m.conc(a[1]))
		if n == 0 {
			return Value{}
		}
		p, ok := a[0].P.(*Value)
		if !ok {
			m.unsupported("unsafe.String of %T", a[0].P)
		}
		return mkStrBytes(unsafe.Slice(p, n))
	case "Slice":
		n := int(m.conc(a[1]))
		if a[0].P == nil {
			return Value{}
		}
		p, ok := a[0].P.(*Value)
		if !ok {
			m.unsupported("unsafe.Slice of %T", a[0].P)
		}
		return Value{P: unsafe.Slice(p, n)}
	case "close":
		m.chanClose(a[0])
		return Value{}
	}
	m.unsupported("builtin %s(%T) at %s", ins.name, a[0].P, m.where())
	return Value{}
}

func overlaps(a, b []Value) bool {
	a0, b0 := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	sz := unsafe.Sizeof(Value{})
	return a0 < b0+uintptr(len(b))*sz && b0 < a0+uintptr(len(a))*sz
}

// decodeRune decodes the first rune of non-empty b.
func (m *Machine) decodeRune(b []Value) (Value, int) {
	conc := true
	for i := 0; i < len(b) && i < 4; i++ {
		if b[i].P != nil {
			conc = false
		}
	}
	if b[0].P == nil && b[0].N < 0x80 {
		return Value{N: b[0].N}, 1
	}
	if conc {
		var buf [4]byte
		n := 0
		for ; n < len(b) && n < 4; n++ {
			buf[n] = byte(b[n].N)
		}
		r, s := utf8.DecodeRune(buf[:n])
		return Value{N: uint64(uint32(r))}, s
	}
	tc := m.tc
	bad := Value{N: 0xFFFD}
	k := func(v uint64) *Term { return tc.Const(8, v) }
	b0 := m.term(b[0], 8)
	if m.decide(tc.Ult(b0, k(0x80))) {
		return m.tv(tc.Zext(b0, 32)), 1
	}
	if m.decide(tc.Or(tc.Ult(b0, k(0xC2)), tc.Ult(k(0xF4), b0))) {
		return bad, 1
	}
	z := func(t *Term, msk uint64) *Term { return tc.Zext(tc.BAnd(t, k(msk)), 32) }
	sh := func(t *Term, n uint64) *Term { return tc.Shl(t, tc.Const(32, n)) }
	cont := func(t *Term) *Term { return tc.Eq(tc.BAnd(t, k(0xC0)), k(0x80)) }
	if m.decide(tc.Ult(b0, k(0xE0))) {
		if len(b) < 2 {
			return bad, 1
		}
		b1 := m.term(b[1], 8)
		if !m.decide(cont(b1)) {
			return bad, 1
		}
		return m.tv(tc.BOr(sh(z(b0, 0x1F), 6), z(b1, 0x3F))), 2
	}
	if m.decide(tc.Ult(b0, k(0xF0))) {
		if len(b) < 2 {
			return bad, 1
		}
		b1 := m.term(b[1], 8)
		lo := tc.Ite(tc.Eq(b0, k(0xE0)), k(0xA0), k(0x80))
		hi := tc.Ite(tc.Eq(b0, k(0xED)), k(0x9F), k(0xBF))
		if !m.decide(tc.And(tc.Ule(lo, b1), tc.Ule(b1, hi))) {
			return bad, 1
		}
		if len(b) < 3 {
			return bad, 1
		}
		b2 := m.term(b[2], 8)
		if !m.decide(cont(b2)) {
			return bad, 1
		}
		return m.tv(tc.BOr(tc.BOr(sh(z(b0, 0x0F), 12), sh(z(b1, 0x3F), 6)), z(b2, 0x3F))), 3
	}
	if len(b) < 2 {
		return bad, 1
	}
	b1 := m.term(b[1], 8)
	lo := tc.Ite(tc.Eq(b0, k(0xF0)), k(0x90), k(0x80))
	hi := tc.Ite(tc.Eq(b0, k(0xF4)), k(0x8F), k(0xBF))
	if !m.decide(tc.And(tc.Ule(lo, b1), tc.Ule(b1, hi))) {
		return bad, 1
	}
	if len(b) < 4 {
		return bad, 1
	}
	b2, b3 := m.term(b[2], 8), m.term(b[3], 8)
	if !m.decide(tc.And(cont(b2), cont(b3))) {
		return bad, 1
	}
	return m.tv(tc.BOr(tc.BOr(sh(z(b0, 0x07), 18), sh(z(b1, 0x3F), 12)), tc.BOr(sh(z(b2, 0x3F), 6), z(b3, 0x3F)))), 4
}

// encodeRune gives the UTF-8 bytes of a 32-bit rune value.
func (m *Machine) encodeRune(r Value) []Value {
	t, ok := r.P.(*Term)
	if !ok {
		return bytesOf(string(rune(int32(uint32(r.N)))))
	}
	tc := m.tc
	k := func(v uint64) *Term { return tc.Const(32, v) }
	by := func(t *Term) Value { return m.tv(tc.Extract(t, 0, 8)) }
	shr := func(n uint64) *Term { return tc.Lshr(t, k(n)) }
	if m.decide(tc.Ult(t, k(0x80))) {
		return []Value{by(t)}
	}
	if m.decide(tc.Ult(t, k(0x800))) {
		return []Value{by(tc.BOr(k(0xC0), shr(6))), by(tc.BOr(k(0x80), tc.BAnd(t, k(0x3F))))}
	}
	surr := tc.And(tc.Ule(k(0xD800), t), tc.Ule(t, k(0xDFFF)))
	if m.decide(tc.Or(surr, tc.Ult(k(0x10FFFF), t))) {
		return bytesOf("\uFFFD")
	}
	low := func(x *Term) *Term { return tc.BOr(k(0x80), tc.BAnd(x, k(0x3F))) }
	if m.decide(tc.Ult(t, k(0x10000))) {
		return []Value{by(tc.BOr(k(0xE0), shr(12))), by(low(shr(6))), by(low(t))}
	}
	return []Value{by(tc.BOr(k(0xF0), shr(18))), by(low(shr(12))), by(low(shr(6))), by(low(t))}
}

func (m *Machine) convert(x Value, from, to *TypeInfo) Value {
	switch {
	case to.kind == KString && from.kind == KSlice:
		s, _ := x.P.([]Value)
		if from.elem.w == 8 {
			return mkStrBytes(s)
		}
		var b []Value
		for i := range s {
			b = append(b, m.encodeRune(s[i])...)
		}
		return mkStrBytesNoCopy(b)
	case to.kind == KSlice && from.kind == KString:
		b := strBytes(x)
		if to.elem.w == 8 {
			r := make([]Value, len(b))
			copy(r, b)
			return Value{P: r}
		}
		r := []Value{}
		for len(b) > 0 {
			c, n := m.decodeRune(b)
			r = append(r, c)
			b = b[n:]
		}
		return Value{P: r}
	case to.kind == KString && from.kind == KString:
		return x
	case to.kind == KString && from.kind == KInt:
		if x.P == nil {
			v := sext64(x.N, from.w)
			if !from.signed {
				v = int64(x.N)
			}
			if v < 0 || v > 0x10FFFF {
				v = 0xFFFD
			}
			return mkStr(string(rune(v)))
		}
		t := m.term(x, from.w)
		var t32 *Term
		if from.w > 32 {
			if m.decide(m.tc.Ult(t, m.tc.Const(from.w, 0x110000))) {
				t32 = m.tc.Extract(t, 0, 32)
			} else {
				return mkStr("\uFFFD")
			}
		} else {
			t32 = m.convInt(t, from.signed, 32)
		}
		return mkStrBytesNoCopy(m.encodeRune(m.tv(t32)))
	case from.kind == KInt && to.kind == KFloat:
		if x.P != nil {
			x = Value{N: m.conc(x)}
		}
		if from.signed {
			return fbits(to, float64(sext64(x.N, from.w)))
		}
		return fbits(to, float64(x.N))
	case from.kind == KFloat && to.kind == KInt:
		f := fval(from, m.fconc(x))
		if to.signed {
			return Value{N: uint64(int64(f)) & mask(to.w)}
		}
		return Value{N: uint64(f) & mask(to.w)}
	case from.kind == KFloat && to.kind == KFloat:
		return fbits(to, fval(from, m.fconc(x)))
	case to.kind == KUnsafe || from.kind == KUnsafe:
		if to.kind == KInt {
			if x.P == nil {
				return x
			}
			return Value{N: 0x1000} // opaque non-zero address
		}
		return x
	}
	if from.kind == to.kind {
		return x
	}
	m.unsupported("conversion %s to %s", from, to)
	return Value{}
}

var _ = token.ADD
