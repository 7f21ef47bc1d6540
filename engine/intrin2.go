package main

import (
	"go/types"
	"math"
)

// copyMap makes a map with the same entries.
func copyMap(x *Map) *Map {
	n := newMap(x.kt)
	for i := range x.keys {
		if !x.live[i] {
			continue
		}
		k := len(n.keys)
		n.keys, n.vals, n.live = append(n.keys, x.keys[i]), append(n.vals, copyVal(x.vals[i])), append(n.live, true)
		n.n++
		if ck, ok := mapKey(x.keys[i]); ok {
			n.idx[ck] = k
		} else {
			n.symKeys = append(n.symKeys, k)
		}
	}
	return n
}

// deepEq is reflect.DeepEqual on two values of type ti.
func (m *Machine) deepEq(x, y Value, ti *TypeInfo, seen map[[2]any]bool) bool {
	mark := func(a, b any) bool {
		k := [2]any{a, b}
		if seen[k] {
			return true
		}
		seen[k] = true
		return false
	}
	switch ti.kind {
	case KIface:
		a, _ := x.P.(*Iface)
		b, _ := y.P.(*Iface)
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		return a.t == b.t && m.deepEq(a.v, b.v, a.t, seen)
	case KPtr:
		a, ok1 := x.P.(*Value)
		b, ok2 := y.P.(*Value)
		if !ok1 || !ok2 || a == b {
			return m.decide(m.valEq(x, y))
		}
		return mark(a, b) || m.deepEq(*a, *b, ti.elem, seen)
	case KSlice:
		a, b := sliceVals(x), sliceVals(y)
		if (x.P == nil) != (y.P == nil) || len(a) != len(b) {
			return false
		}
		if len(a) == 0 || &a[0] == &b[0] || mark(&a[0], &b[0]) {
			return true
		}
		for i := range a {
			if !m.deepEq(a[i], b[i], ti.elem, seen) {
				return false
			}
		}
		return true
	case KStruct, KArray:
		a, b := x.P.(Agg), y.P.(Agg)
		for i := range a {
			e := ti.elem
			if ti.kind == KStruct {
				e = ti.fields[i]
			}
			if !m.deepEq(a[i], b[i], e, seen) {
				return false
			}
		}
		return true
	case KMap:
		a, _ := x.P.(*Map)
		b, _ := y.P.(*Map)
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		if a.n != b.n {
			return false
		}
		if a == b || mark(a, b) {
			return true
		}
		for i := range a.keys {
			if a.live[i] {
				v, ok := m.mapGet(b, a.keys[i])
				if !ok || !m.deepEq(a.vals[i], v, ti.elem, seen) {
					return false
				}
			}
		}
		return true
	case KFunc:
		return x.P == nil && y.P == nil
	}
	return m.decide(m.valEq(x, y))
}

func init() {
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			return a[0]
		}
		mp, _ := i.v.P.(*Map)
		if mp == nil {
			return a[0]
		}
		if m.roOn {
			m.roLoad(mp)
		}
		return Value{P: &Iface{i.t, Value{P: copyMap(mp)}}}
	}, "maps.clone")

	sreg("XAssign", func(m *Machine, a []Value) Value {
		t, e := a[0].P.(*Iface), a[1].P.(*Iface)
		p, _ := t.v.P.(*Value)
		if t.t.kind != KPtr || p == nil {
			m.throwRT("errors: target must be a non-nil pointer")
		}
		el := t.t.elem
		if el.kind == KIface {
			if implements(e.t, el) {
				m.store(p, a[1])
				return mkBool(true)
			}
			return mkBool(false)
		}
		if e.t == el {
			m.store(p, e.v)
			return mkBool(true)
		}
		return mkBool(false)
	})
	sreg("XMapKeys", func(m *Machine, a []Value) Value {
		c := a[0].P.(*Iface).v.P.(*Value)
		mp, _ := leafCellOf(c).P.(*Map)
		var r []Value
		if mp != nil {
			for i := range mp.keys {
				if mp.live[i] {
					r = append(r, mp.keys[i])
				}
			}
		}
		return Value{P: r}
	})

	// mathematics that is assembly on this machine
	f1 := func(f func(float64) float64) Intrinsic {
		return func(m *Machine, fn *Fn, a []Value) Value {
			t := m.p.basicFloat64()
			return fbits(t, f(fval(t, m.fconc(a[0]))))
		}
	}
	f2 := func(f func(x, y float64) float64) Intrinsic {
		return func(m *Machine, fn *Fn, a []Value) Value {
			t := m.p.basicFloat64()
			return fbits(t, f(fval(t, m.fconc(a[0])), fval(t, m.fconc(a[1]))))
		}
	}
	reg(f1(math.Floor), "math.archFloor", "math.Floor")
	reg(f1(math.Ceil), "math.archCeil", "math.Ceil")
	reg(f1(math.Trunc), "math.archTrunc", "math.Trunc")
	reg(f1(math.Exp), "math.archExp", "math.Exp")
	reg(f1(math.Log), "math.archLog", "math.Log")
	reg(f1(math.Sqrt), "math.archSqrt", "math.Sqrt", "math.sqrt")
	reg(f2(math.Max), "math.archMax", "math.Max")
	reg(f2(math.Min), "math.archMin", "math.Min")
	reg(f2(math.Hypot), "math.archHypot", "math.Hypot")

	reg(func(m *Machine, fn *Fn, a []Value) Value {
		x, _ := a[0].P.(*Iface)
		y, _ := a[1].P.(*Iface)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
		return mkBool(x.t == y.t && m.deepEq(x.v, y.v, x.t, map[[2]any]bool{}))
	}, "reflect.DeepEqual")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ta := fn.ssa.TypeArgs()
		return m.rtypeIface(typeOf(ta[0]))
	}, "reflect.TypeFor")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti := typeOf(fn.ssa.TypeArgs()[0])
		for _, c := range m.uniq[ti] {
			if m.decide(m.valEq(*c, a[0])) {
				return Value{P: Agg{Value{P: c}}}
			}
		}
		c := cellOf(a[0])
		if m.uniq == nil {
			m.uniq = map[*TypeInfo][]*Value{}
		}
		old := m.uniq[ti]
		m.uniq[ti] = append(old[:len(old):len(old)], c)
		m.onUndo(func() { m.uniq[ti] = old })
		return Value{P: Agg{Value{P: c}}}
	}, "unique.Make")
}

// leafCellOf gives the first scalar cell of an aggregate.
func leafCellOf(c *Value) *Value {
	a, ok := c.P.(Agg)
	if !ok {
		return c
	}
	for i := range a {
		if l := leafCellOf(&a[i]); l != nil {
			return l
		}
	}
	return nil
}

var _ = types.Typ
