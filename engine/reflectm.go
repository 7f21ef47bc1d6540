package main

import (
	"go/types"
	"sort"
)

// A small model of reflect: a reflect.Value is the struct {typ_, ptr, flag}
// whose first word holds the *TypeInfo, whose second word points at a cell with
// the value, and whose flag says whether it is addressable. A reflect.Type is
// a *rtype whose pointer word is the *TypeInfo.

func (p *Program) namedType(pkg, name string) *TypeInfo {
	pk := p.ssa.ImportedPackage(pkg)
	if pk == nil {
		return nil
	}
	return typeOf(pk.Type(name).Type())
}

func (m *Machine) rtypeIface(ti *TypeInfo) Value {
	if ti == nil {
		return Value{}
	}
	rt := typeOf(types.NewPointer(m.p.namedType("reflect", "rtype").t))
	return Value{P: &Iface{rt, Value{P: ti}}}
}

func (m *Machine) rliteIface(ti *TypeInfo) Value {
	if ti == nil {
		return Value{}
	}
	return Value{P: &Iface{m.p.namedType("internal/reflectlite", "rtype"), Value{P: Agg{Value{P: ti}}}}}
}

func mkRV(ti *TypeInfo, c *Value, flag uint64) Value {
	return Value{P: Agg{Value{P: ti}, Value{P: c}, Value{N: flag}}}
}

func rvOf(v Value) (*TypeInfo, *Value, uint64) {
	a := v.P.(Agg)
	ti, _ := a[0].P.(*TypeInfo)
	c, _ := a[1].P.(*Value)
	return ti, c, a[2].N
}

func reflectKind(ti *TypeInfo) uint64 {
	switch u := ti.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func cellOf(v Value) *Value {
	c := new(Value)
	*c = copyVal(v)
	return c
}

// leaves lists the fixed-size integer cells of a value in memory order.
func leaves(c *Value, ti *TypeInfo, out *[]*Value, ws *[]uint8) bool {
	switch ti.kind {
	case KInt:
		if b, ok := ti.u.(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr) {
			return false
		}
		*out = append(*out, c)
		*ws = append(*ws, ti.w)
		return true
	case KStruct:
		a := c.P.(Agg)
		for i := range a {
			if !leaves(&a[i], ti.fields[i], out, ws) {
				return false
			}
		}
		return true
	case KArray:
		a := c.P.(Agg)
		for i := range a {
			if !leaves(&a[i], ti.elem, out, ws) {
				return false
			}
		}
		return true
	case KSlice:
		s, _ := c.P.([]Value)
		for i := range s {
			if !leaves(&s[i], ti.elem, out, ws) {
				return false
			}
		}
		return true
	}
	return false
}

// dataLeaves opens the argument of binary.Read or binary.Write.
func dataLeaves(v Value, write bool) (cells []*Value, ws []uint8, ok bool) {
	f, _ := v.P.(*Iface)
	if f == nil {
		return nil, nil, false
	}
	switch f.t.kind {
	case KPtr:
		c, isCell := f.v.P.(*Value)
		if !isCell {
			return nil, nil, false
		}
		ok = leaves(c, f.t.elem, &cells, &ws)
	case KSlice:
		c := f.v
		ok = leaves(&c, f.t, &cells, &ws)
	default:
		if write {
			c := f.v
			ok = leaves(&c, f.t, &cells, &ws)
		}
	}
	return
}

func init() {
	// helpers of the models package
	sreg("XLeaves", func(m *Machine, a []Value) Value {
		_, ws, ok := dataLeaves(a[0], a[1].N != 0)
		if !ok {
			return Value{P: Tup{Value{}, mkBool(false)}}
		}
		r := make([]Value, len(ws))
		for i, w := range ws {
			r[i] = mkInt(int(w) / 8)
		}
		return Value{P: Tup{Value{P: r}, mkBool(true)}}
	})
	sreg("XSetLeaf", func(m *Machine, a []Value) Value {
		cs, ws, _ := dataLeaves(a[0], false)
		i := int(a[1].N)
		m.store(cs[i], m.tv(m.tc.Extract(m.term(a[2], 64), 0, ws[i])))
		return Value{}
	})
	sreg("XGetLeaf", func(m *Machine, a []Value) Value {
		cs, ws, _ := dataLeaves(a[0], true)
		i := int(a[1].N)
		return m.tv(m.tc.Zext(m.term(*cs[i], ws[i]), 64))
	})
	sreg("XLen", func(m *Machine, a []Value) Value {
		return mkInt(len(sliceVals(a[0].P.(*Iface).v)))
	})
	sreg("XSwap", func(m *Machine, a []Value) Value {
		s := sliceVals(a[0].P.(*Iface).v)
		i, j := m.conc(a[1]), m.conc(a[2])
		if i >= uint64(len(s)) || j >= uint64(len(s)) {
			m.throwRT("reflect: slice index out of range")
		}
		x, y := copyVal(s[i]), copyVal(s[j])
		m.store(&s[i], y)
		m.store(&s[j], x)
		return Value{}
	})
	sreg("XComparable", func(m *Machine, a []Value) Value {
		f, _ := a[0].P.(*Iface)
		return mkBool(f == nil || types.Comparable(f.t.t))
	})

	// reflectlite
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		f, _ := a[0].P.(*Iface)
		if f == nil {
			return Value{}
		}
		return m.rliteIface(f.t)
	}, "internal/reflectlite.TypeOf")
	lt := func(v Value) *TypeInfo { return v.P.(Agg)[0].P.(*TypeInfo) }
	const rl = "(internal/reflectlite.rtype)."
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkBool(types.Comparable(lt(a[0]).t)) }, rl+"Comparable")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkStr(lt(a[0]).String()) }, rl+"String")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return Value{N: reflectKind(lt(a[0]))} }, rl+"Kind")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.rliteIface(lt(a[0]).elem) }, rl+"Elem")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return mkBool(implements(lt(a[0]), a[1].P.(*Iface).v.P.(Agg)[0].P.(*TypeInfo)))
	}, rl+"Implements")

	// reflect.Type
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		f, _ := a[0].P.(*Iface)
		if f == nil {
			return Value{}
		}
		return m.rtypeIface(f.t)
	}, "reflect.TypeOf")
	rt := func(v Value) *TypeInfo { return v.P.(*TypeInfo) }
	const rp = "(*reflect.rtype)."
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkStr(rt(a[0]).String()) }, rp+"String")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return Value{N: reflectKind(rt(a[0]))} }, rp+"Kind")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.rtypeIface(rt(a[0]).elem) }, rp+"Elem")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.rtypeIface(rt(a[0]).key) }, rp+"Key")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if n, ok := types.Unalias(rt(a[0]).t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return mkStr(n.Obj().Pkg().Path())
		}
		return mkStr("")
	}, rp+"PkgPath")
	sig := func(v Value) *types.Signature { return rt(v).u.(*types.Signature) }
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkInt(sig(a[0]).Params().Len()) }, rp+"NumIn")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkInt(sig(a[0]).Results().Len()) }, rp+"NumOut")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return m.rtypeIface(typeOf(sig(a[0]).Params().At(int(a[1].N)).Type()))
	}, rp+"In")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return m.rtypeIface(typeOf(sig(a[0]).Results().At(int(a[1].N)).Type()))
	}, rp+"Out")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkBool(sig(a[0]).Variadic()) }, rp+"IsVariadic")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkInt(rt(a[0]).n) }, rp+"Len")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkInt(len(rt(a[0]).fields)) }, rp+"NumField")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkBool(types.Comparable(rt(a[0]).t)) }, rp+"Comparable")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if n, ok := rt(a[0]).t.(*types.Named); ok {
			return mkStr(n.Obj().Name())
		}
		if n, ok := rt(a[0]).t.(*types.Basic); ok {
			return mkStr(n.Name())
		}
		return Value{}
	}, rp+"Name")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		z := zero(typeOf(fn.ssa.Signature.Results().At(0).Type()))
		z.P.(Agg)[0] = mkStr(rt(a[0]).u.(*types.Struct).Field(int(m.conc(a[1]))).Name())
		return z
	}, rp+"Field")

	// reflect.Value
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		f, _ := a[0].P.(*Iface)
		if f == nil {
			return mkRV(nil, nil, 0)
		}
		return mkRV(f.t, cellOf(f.v), 0)
	}, "reflect.ValueOf")
	const rv = "(reflect.Value)."
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, _, _ := rvOf(a[0])
		if ti == nil {
			return Value{}
		}
		return Value{N: reflectKind(ti)}
	}, rv+"Kind")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, _, _ := rvOf(a[0])
		return mkBool(ti != nil)
	}, rv+"IsValid")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, _, _ := rvOf(a[0])
		return mkBool(ti != nil)
	}, rv+"CanInterface")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		_, _, f := rvOf(a[0])
		return mkBool(f&1 != 0)
	}, rv+"CanAddr", rv+"CanSet")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, c, _ := rvOf(a[0])
		if ti == nil {
			m.throwRT("reflect: call of Interface on zero Value")
		}
		if ti.kind == KIface {
			return *c
		}
		return Value{P: &Iface{ti, copyVal(*c)}}
	}, rv+"Interface", "reflect.valueInterface", "reflect.packEface")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, _, _ := rvOf(a[0])
		return m.rtypeIface(ti)
	}, rv+"Type")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		_, c, _ := rvOf(a[0])
		switch x := c.P.(type) {
		case []Value:
			return mkInt(len(x))
		case *Map:
			return mkInt(x.n)
		case Agg:
			return mkInt(len(x))
		case nil:
			return mkInt(0)
		}
		return mkInt(strLen(*c))
	}, rv+"Len")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, c, f := rvOf(a[0])
		i := m.conc(a[1])
		switch x := c.P.(type) {
		case []Value:
			if i < uint64(len(x)) {
				return mkRV(ti.elem, &x[i], 1)
			}
		case Agg:
			if i < uint64(len(x)) {
				return mkRV(ti.elem, &x[i], f)
			}
		}
		m.throwRT("reflect: index out of range")
		return Value{}
	}, rv+"Index")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, c, f := rvOf(a[0])
		i := m.conc(a[1])
		x := c.P.(Agg)
		return mkRV(ti.fields[i], &x[i], f)
	}, rv+"Field")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, _, _ := rvOf(a[0])
		return mkInt(len(ti.fields))
	}, rv+"NumField")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, c, _ := rvOf(a[0])
		switch ti.kind {
		case KIface:
			f, _ := c.P.(*Iface)
			if f == nil {
				return mkRV(nil, nil, 0)
			}
			return mkRV(f.t, cellOf(f.v), 0)
		case KPtr:
			p, _ := c.P.(*Value)
			if p == nil {
				return mkRV(nil, nil, 0)
			}
			return mkRV(ti.elem, p, 1)
		}
		m.throwRT("reflect: call of Elem on " + ti.String())
		return Value{}
	}, rv+"Elem")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		_, c, _ := rvOf(a[0])
		return mkBool(c.P == nil)
	}, rv+"IsNil")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, c, _ := rvOf(a[0])
		t := m.term(*c, ti.w)
		return m.tv(m.tc.Sext(t, 64))
	}, rv+"Int")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, c, _ := rvOf(a[0])
		return m.tv(m.tc.Zext(m.term(*c, ti.w), 64))
	}, rv+"Uint")
	reg(func(m *Machine, fn *Fn, a []Value) Value { _, c, _ := rvOf(a[0]); return *c }, rv+"Bool", rv+"Bytes")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, c, _ := rvOf(a[0])
		if ti == nil {
			return mkStr("<invalid Value>")
		}
		if ti.kind != KString {
			return mkStr("<" + ti.String() + " Value>")
		}
		return *c
	}, rv+"String")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, c, _ := rvOf(a[0])
		return fbits(m.p.basicFloat64(), fval(ti, *c))
	}, rv+"Float")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		_, c, _ := rvOf(a[0])
		if c.P == nil {
			return Value{}
		}
		return Value{N: 0xc000010000}
	}, rv+"Pointer", rv+"UnsafePointer")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		_, c, _ := rvOf(a[0])
		m.store(c, a[1])
		return Value{}
	}, rv+"SetInt", rv+"SetUint", rv+"SetString", rv+"SetBool")
	// fmt's sorted maps: keys of basic kinds
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		ti, c, _ := rvOf(a[0])
		mp, _ := c.P.(*Map)
		var out []Value
		if mp != nil {
			var idx []int
			for i := range mp.keys {
				if mp.live[i] {
					idx = append(idx, i)
				}
			}
			sort.SliceStable(idx, func(x, y int) bool {
				kx, ky := mp.keys[idx[x]], mp.keys[idx[y]]
				if ti.key.kind == KString {
					return m.decide(m.bytesLess(strBytes(kx), strBytes(ky)))
				}
				if ti.key.kind == KInt {
					return int64(m.conc(kx)) < int64(m.conc(ky))
				}
				return false
			})
			for _, i := range idx {
				out = append(out, Value{P: Agg{mkRV(ti.key, cellOf(mp.keys[i]), 0), mkRV(ti.elem, cellOf(mp.vals[i]), 0)}})
			}
		}
		return Value{P: out}
	}, "internal/fmtsort.Sort")
}

func (p *Program) basicFloat64() *TypeInfo { return typeOf(types.Typ[types.Float64]) }
