package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is an interpreted Go value. Scalars live in N (zero-extended to their
// width; floats as IEEE bits) unless P is a *Term (symbolic scalar). Other
// kinds use P:
//
//	string            string | *SymStr (nil = "")
//	pointer           *Value | *SymPtr | *FuncPtr (nil)
//	struct, array     Agg
//	slice             []Value (nil)
//	map               *Map
//	interface         *Iface
//	func              *Func
//	tuple             Tup
type Value struct {
	P any
	N uint64
}

type Agg []Value
type Tup []Value

// SymStr is a string of concrete length with symbolic bytes.
type SymStr struct{ b []Value }

// SymPtr points at elems[idx] for a symbolic in-range idx.
type SymPtr struct {
	elems []Value
	idx   *Term
}

type Iface struct {
	t *TypeInfo
	v Value
}

type Func struct {
	fn       *Fn
	bindings []Value
	builtin  string
	recv     *Value // bound receiver for natively bound things (unused)
}

// Kind of a type, after taking the underlying type.
type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt // any integer, incl. uintptr
	KFloat
	KComplex
	KString
	KUnsafe
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
)

// TypeInfo is the canonical descriptor of a type (identical types share one).
type TypeInfo struct {
	id     int
	t      types.Type
	u      types.Type
	kind   Kind
	w      uint8
	signed bool
	elem   *TypeInfo
	key    *TypeInfo
	fields []*TypeInfo
	n      int
	str    string
	once   sync.Once
	impl   sync.Map // *TypeInfo (iface) -> bool
	meth   sync.Map // string -> *Fn or nil marker
	mset   *types.MethodSet
}

var (
	typeMu    sync.Mutex
	typeTab   typeutil.Map
	typeFast  sync.Map // types.Type -> *TypeInfo
	typeCount int
)

// typeOf returns the canonical info of t.
func typeOf(t types.Type) *TypeInfo {
	if v, ok := typeFast.Load(t); ok {
		return v.(*TypeInfo)
	}
	typeMu.Lock()
	ti := typeOfLocked(t)
	typeMu.Unlock()
	return ti
}

func typeOfLocked(t types.Type) *TypeInfo {
	if v, ok := typeFast.Load(t); ok {
		return v.(*TypeInfo)
	}
	ut := types.Unalias(t)
	if v := typeTab.At(ut); v != nil {
		ti := v.(*TypeInfo)
		typeFast.Store(t, ti)
		return ti
	}
	typeCount++
	ti := &TypeInfo{id: typeCount, t: ut, u: ut.Underlying()}
	typeTab.Set(ut, ti)
	typeFast.Store(t, ti)
	switch u := ti.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
			ti.w = 0
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float32:
			ti.kind, ti.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		case types.UntypedNil:
			ti.kind = KPtr
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = typeOfLocked(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = typeOfLocked(u.Elem())
	case *types.Array:
		ti.kind = KArray
		ti.elem = typeOfLocked(u.Elem())
		ti.n = int(u.Len())
	case *types.Map:
		ti.kind = KMap
		ti.key = typeOfLocked(u.Key())
		ti.elem = typeOfLocked(u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ti.elem = typeOfLocked(u.Elem())
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KIface
	case *types.Struct:
		ti.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, typeOfLocked(u.Field(i).Type()))
		}
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, typeOfLocked(u.At(i).Type()))
		}
	}
	return ti
}

func (ti *TypeInfo) String() string {
	ti.once.Do(func() {
		ti.str = types.TypeString(ti.t, func(p *types.Package) string { return p.Name() })
	})
	return ti.str
}

// zero value of a type.
func zero(ti *TypeInfo) Value {
	switch ti.kind {
	case KStruct, KTuple:
		a := make(Agg, len(ti.fields))
		for i, f := range ti.fields {
			if f.kind == KStruct || f.kind == KArray {
				a[i] = zero(f)
			}
		}
		if ti.kind == KTuple {
			return Value{P: Tup(a)}
		}
		return Value{P: a}
	case KArray:
		a := make(Agg, ti.n)
		if k := ti.elem.kind; k == KStruct || k == KArray {
			for i := range a {
				a[i] = zero(ti.elem)
			}
		}
		return Value{P: a}
	}
	return Value{}
}

func copyVal(v Value) Value {
	if a, ok := v.P.(Agg); ok {
		b := make(Agg, len(a))
		copy(b, a)
		for i := range b {
			if _, ok := b[i].P.(Agg); ok {
				b[i] = copyVal(b[i])
			}
		}
		return Value{P: b}
	}
	return v
}

// Map is an interpreted map.
type Map struct {
	keys    []Value
	vals    []Value
	live    []bool
	n       int
	idx     map[any]int
	symKeys []int // indexes of entries with symbolic keys
	kt      *TypeInfo
}

func newMap(kt *TypeInfo) *Map { return &Map{idx: map[any]int{}, kt: kt} }

type ifaceKey struct {
	t *TypeInfo
	k any
}
type pairKey struct{ a, b any }

// keyOf returns a comparable Go key for a concrete value; ok=false when symbolic.
func keyOf(v Value) (k any, ok bool) {
	switch p := v.P.(type) {
	case nil:
		return v.N, true
	case *Term, *SymStr, *SymPtr:
		return nil, false
	case string:
		return p, true
	case Agg:
		k = len(p)
		for i := range p {
			x, ok := keyOf(p[i])
			if !ok {
				return nil, false
			}
			if s, isS := x.(string); isS && s == "" {
				x = uint64(0)
			}
			k = pairKey{k, x}
		}
		return k, true
	case *Iface:
		x, ok := keyOf(p.v)
		return ifaceKey{p.t, normKey(x)}, ok
	default:
		return p, true
	}
}

func normKey(k any) any {
	if s, ok := k.(string); ok && s == "" {
		return uint64(0)
	}
	return k
}

func mapKey(v Value) (any, bool) {
	k, ok := keyOf(v)
	return normKey(k), ok
}

// strBytes gives the bytes of a string value as Values.
func strBytes(v Value) []Value {
	switch p := v.P.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(p))
		for i := range b {
			b[i].N = uint64(p[i])
		}
		return b
	case *SymStr:
		return p.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.P))
}

func strLen(v Value) int {
	switch p := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(p)
	case *SymStr:
		return len(p.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.P))
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

// mkStrBytes makes a string from byte values (copies).
func mkStrBytes(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].P != nil {
			return Value{P: &SymStr{append([]Value(nil), b...)}}
		}
	}
	s := make([]byte, len(b))
	for i := range b {
		s[i] = byte(b[i].N)
	}
	return Value{P: string(s)}
}

func isConcStr(v Value) (string, bool) {
	switch p := v.P.(type) {
	case nil:
		return "", true
	case string:
		return p, true
	}
	return "", false
}

func bytesOf(s string) []Value {
	b := make([]Value, len(s))
	for i := range b {
		b[i].N = uint64(s[i])
	}
	return b
}

func mkInt(n int) Value   { return Value{N: uint64(n)} }
func mkBool(b bool) Value { return Value{N: b2u(b)} }

// Fn is a compiled function.
type Fn struct {
	name      string
	ssa       *ssa.Function
	once      sync.Once
	code      []Ins
	nregs     int
	nparams   int
	consts    []constOp
	recoverPC int32
	intr      Intrinsic
	model     *Fn
	repo      bool
	anyOrder  bool // ranges over maps in every order under MapOrder
	id        int
	err       string
	results   int
	resTypes  []*TypeInfo
	isPkgInit bool
}

type constOp struct {
	v    Value
	glob int32 // global index +1, or 0
}

// Intrinsic implements a function natively.
type Intrinsic func(m *Machine, fn *Fn, a []Value) Value
