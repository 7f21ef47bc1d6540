package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

var intrinsics = map[string]Intrinsic{}
var symIntrinsics = map[string]Intrinsic{}

func reg(f Intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func nop(m *Machine, fn *Fn, a []Value) Value { return Value{} }
func id0(m *Machine, fn *Fn, a []Value) Value { return a[0] }
func constV(v Value) Intrinsic                { return func(m *Machine, fn *Fn, a []Value) Value { return v } }

// sliceVals gives the cells of a slice value.
func sliceVals(v Value) []Value {
	s, _ := v.P.([]Value)
	return s
}

// sb gives the bytes of a []byte or string value.
func sb(v Value) []Value {
	switch p := v.P.(type) {
	case []Value:
		return p
	}
	return strBytes(v)
}

func (m *Machine) indexByte(b []Value, c Value) int {
	ct := m.term(c, 8)
	for i := range b {
		if b[i].P == nil && c.P == nil {
			if b[i].N == c.N {
				return i
			}
			continue
		}
		if m.decide(m.tc.Eq(m.term(b[i], 8), ct)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lastIndexByte(b []Value, c Value) int {
	ct := m.term(c, 8)
	for i := len(b) - 1; i >= 0; i-- {
		if m.decide(m.tc.Eq(m.term(b[i], 8), ct)) {
			return i
		}
	}
	return -1
}

func (m *Machine) indexStr(a, b []Value) int {
	n := len(b)
	for i := 0; i+n <= len(a); i++ {
		if m.decide(m.bytesEq(a[i:i+n], b)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lastIndexStr(a, b []Value) int {
	n := len(b)
	for i := len(a) - n; i >= 0; i-- {
		if m.decide(m.bytesEq(a[i:i+n], b)) {
			return i
		}
	}
	return -1
}

func (m *Machine) countByte(b []Value, c Value) Value {
	tc := m.tc
	r := tc.Const(64, 0)
	ct := m.term(c, 8)
	for i := range b {
		r = tc.Add(r, tc.Ite(tc.Eq(m.term(b[i], 8), ct), tc.Const(64, 1), tc.Const(64, 0)))
	}
	if r.isConst() {
		return Value{N: r.k}
	}
	return Value{N: m.concretize(r)}
}

func (m *Machine) compareBytes(a, b []Value) Value {
	tc := m.tc
	lt, eq := m.bytesLess(a, b), m.bytesEq(a, b)
	return m.tv(tc.Ite(lt, tc.Const(64, ^uint64(0)), tc.Ite(eq, tc.Const(64, 0), tc.Const(64, 1))))
}

func init() {
	// memory and runtime helpers
	reg(id0, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "bytes.noescape")
	reg(nop, "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.ReadMemStats",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable", "internal/race.ReleaseMerge",
		"internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Read", "internal/race.Write",
		"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "sync.throw", "sync.fatal",
		"internal/runtime/maps.runtime_rand", "runtime.Callers", "runtime/debug.FreeOSMemory", "runtime/debug.Stack")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return Value{P: []Value{mkStr("prog")}}
	}, "os.runtime_args")
	reg(constV(Value{N: 1}), "runtime.GOMAXPROCS", "runtime.NumCPU", "time.runtimeNano")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return Value{P: Tup{Value{}, mkStr("?"), Value{}, mkBool(false)}}
	}, "runtime.Caller")
	reg(nop, "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault", "internal/godebug.write")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		c := new(Value)
		*c = zero(typeOf(fn.ssa.Signature.Results().At(0).Type()).elem)
		return Value{P: c}
	}, "internal/godebug.New")
	reg(constV(Value{}), "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Name", "(*internal/godebug.Setting).Undocumented")

	// bytealg
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkInt(m.indexByte(sb(a[0]), a[1])) },
		"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkInt(m.lastIndexByte(sb(a[0]), a[1])) },
		"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "bytes.LastIndexByte", "strings.LastIndexByte")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkInt(m.indexStr(sb(a[0]), sb(a[1]))) },
		"internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index", "bytes.Index", "strings.Index",
		"internal/bytealg.IndexRabinKarp")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return mkInt(m.lastIndexStr(sb(a[0]), sb(a[1]))) },
		"bytes.LastIndex", "strings.LastIndex", "internal/bytealg.LastIndexRabinKarp")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.countByte(sb(a[0]), a[1]) },
		"internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.compareBytes(sb(a[0]), sb(a[1])) },
		"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "runtime.cmpstring")
	reg(func(m *Machine, fn *Fn, a []Value) Value { return m.tv(m.bytesEq(sb(a[0]), sb(a[1]))) },
		"internal/bytealg.Equal", "bytes.Equal")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		n := int(m.conc(a[0]))
		return Value{P: make([]Value, n)}
	}, "internal/bytealg.MakeNoZero")

	// utf8
	dec := func(m *Machine, fn *Fn, a []Value) Value {
		b := sb(a[0])
		if len(b) == 0 {
			return Value{P: Tup{Value{N: 0xFFFD}, Value{}}}
		}
		r, n := m.decodeRune(b)
		return Value{P: Tup{r, mkInt(n)}}
	}
	reg(dec, "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		b := sb(a[0])
		for len(b) > 0 {
			r, n := m.decodeRune(b)
			if n == 1 && r.P == nil && r.N == 0xFFFD {
				return mkBool(false)
			}
			b = b[n:]
		}
		return mkBool(true)
	}, "unicode/utf8.Valid", "unicode/utf8.ValidString")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		b := sb(a[0])
		c := 0
		for len(b) > 0 {
			_, n := m.decodeRune(b)
			b = b[n:]
			c++
		}
		return mkInt(c)
	}, "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		e := m.encodeRune(a[1])
		d := sliceVals(a[0])
		if len(d) < len(e) {
			m.throwRT("index out of range in EncodeRune")
		}
		for i := range e {
			m.store(&d[i], e[i])
		}
		return mkInt(len(e))
	}, "unicode/utf8.EncodeRune")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		return m.appendVals(sliceVals(a[0]), m.encodeRune(a[1]), false)
	}, "unicode/utf8.AppendRune")

	// character classes
	cls := func(pred func(rune) bool) Intrinsic {
		rs := rangesOf(pred)
		return func(m *Machine, fn *Fn, a []Value) Value {
			if a[0].P == nil {
				return mkBool(pred(rune(int32(uint32(a[0].N)))))
			}
			return m.tv(m.inRanges(a[0].P.(*Term), rs))
		}
	}
	reg(cls(strconv.IsPrint), "strconv.IsPrint")
	reg(cls(strconv.IsGraphic), "strconv.IsGraphic")
	reg(cls(unicode.IsPrint), "unicode.IsPrint")
	reg(cls(unicode.IsLetter), "unicode.IsLetter")
	reg(cls(unicode.IsDigit), "unicode.IsDigit")
	reg(cls(unicode.IsNumber), "unicode.IsNumber")
	reg(cls(unicode.IsUpper), "unicode.IsUpper")
	reg(cls(unicode.IsLower), "unicode.IsLower")
	reg(cls(unicode.IsSpace), "unicode.IsSpace")
	reg(cls(unicode.IsControl), "unicode.IsControl")
	reg(cls(unicode.IsPunct), "unicode.IsPunct")
	cnv := func(f func(rune) rune) Intrinsic {
		return func(m *Machine, fn *Fn, a []Value) Value {
			if a[0].P == nil {
				return Value{N: uint64(uint32(f(rune(int32(uint32(a[0].N))))))}
			}
			t := a[0].P.(*Term)
			tc := m.tc
			if m.decide(tc.Ult(t, tc.Const(32, 0x80))) {
				r := t
				for c := rune(0); c < 0x80; c++ {
					if f(c) == c {
						continue
					}
					// contiguous range with a constant offset
					e := c
					for e+1 < 0x80 && f(e+1)-(e+1) == f(c)-c {
						e++
					}
					in := tc.And(tc.Ule(tc.Const(32, uint64(c)), t), tc.Ule(t, tc.Const(32, uint64(e))))
					r = tc.Ite(in, tc.Add(t, tc.Const(32, uint64(uint32(f(c)-c)))), r)
					c = e
				}
				return m.tv(r)
			}
			return Value{N: uint64(uint32(f(rune(int32(uint32(m.concretize(t)))))))}
		}
	}
	reg(cnv(unicode.ToLower), "unicode.ToLower")
	reg(cnv(unicode.ToUpper), "unicode.ToUpper")
	reg(cnv(unicode.SimpleFold), "unicode.SimpleFold")

	// sync
	lock := func(op string, d, rd int) Intrinsic {
		return func(m *Machine, fn *Fn, a []Value) Value {
			p, _ := a[0].P.(*Value)
			if p == nil {
				m.nilDeref()
			}
			if !m.lockOp(p, op) {
				return mkBool(false)
			}
			r := mkBool(strings.HasPrefix(op, "Try"))
			if m.roOn {
				if _, shared := m.ro[p]; !shared {
					return r // a lock of this goroutine's own excludes nobody
				}
			}
			m.lockDepth += d
			m.rlockDepth += rd
			m.onUndo(func() { m.lockDepth -= d; m.rlockDepth -= rd })
			return r
		}
	}
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(*internal/sync.Mutex)."} {
		reg(lock("Lock", 1, 0), t+"Lock")
		reg(lock("TryLock", 1, 0), t+"TryLock")
		reg(lock("Unlock", -1, 0), t+"Unlock")
		reg(lock("RLock", 0, 1), t+"RLock")
		reg(lock("TryRLock", 0, 1), t+"TryRLock")
		reg(lock("RUnlock", 0, -1), t+"RUnlock")
	}
	reg(nop, "(*sync.Cond).Broadcast", "(*sync.Cond).Signal")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		pp := a[0].P.(*Value)
		if l := m.pools[pp]; len(l) > 0 && m.noJournal == 0 && !m.roOn { // what was put back last, as on one processor
			m.pools[pp] = l[: len(l)-1 : len(l)-1]
			m.onUndo(func() { m.pools[pp] = l })
			return l[len(l)-1]
		}
		p := pp.P.(Agg)
		newFn, _ := p[len(p)-1].P.(*Func)
		if newFn == nil {
			return Value{}
		}
		m.push(newFn.fn, newFn.bindings, nil)
		m.pushed = true
		return Value{}
	}, "(*sync.Pool).Get")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		i, _ := a[1].P.(*Iface)
		if i == nil || m.noJournal > 0 || m.roOn {
			return Value{}
		}
		pp := a[0].P.(*Value)
		l := m.pools[pp]
		if m.pools == nil {
			m.pools = map[*Value][]Value{}
		}
		m.pools[pp] = append(l[:len(l):len(l)], a[1])
		m.onUndo(func() { m.pools[pp] = l })
		return Value{}
	}, "(*sync.Pool).Put")
	smap := func(v Value) *Map {
		mp, _ := leafCellOf(v.P.(*Value)).P.(*Map)
		return mp
	}
	smapNew := func(m *Machine, v Value) *Map {
		if mp := smap(v); mp != nil {
			return mp
		}
		c := leafCellOf(v.P.(*Value))
		mp := newMap(nil)
		old := *c
		m.onUndo(func() { *c = old })
		*c = Value{P: mp}
		return mp
	}
	noRO := func(m *Machine, f func()) {
		r := m.roOn
		m.roOn = false
		f()
		m.roOn = r
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		v, ok := m.mapGet(smap(a[0]), a[1])
		return Value{P: Tup{v, mkBool(ok)}}
	}, "(*sync.Map).Load")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		noRO(m, func() { m.mapSet(smapNew(m, a[0]), a[1], a[2]) })
		return Value{}
	}, "(*sync.Map).Store")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		mp := smapNew(m, a[0])
		if v, ok := m.mapGet(mp, a[1]); ok {
			return Value{P: Tup{v, mkBool(true)}}
		}
		noRO(m, func() { m.mapSet(mp, a[1], a[2]) })
		return Value{P: Tup{a[2], mkBool(false)}}
	}, "(*sync.Map).LoadOrStore")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		noRO(m, func() { m.mapDelete(smapNew(m, a[0]), a[1]) })
		return Value{}
	}, "(*sync.Map).Delete")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		mp := smapNew(m, a[0])
		v, ok := m.mapGet(mp, a[1])
		noRO(m, func() { m.mapDelete(mp, a[1]) })
		return Value{P: Tup{v, mkBool(ok)}}
	}, "(*sync.Map).LoadAndDelete")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		mp := smapNew(m, a[0])
		v, ok := m.mapGet(mp, a[1])
		noRO(m, func() { m.mapSet(mp, a[1], a[2]) })
		return Value{P: Tup{v, mkBool(ok)}}
	}, "(*sync.Map).Swap")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		mp := smapNew(m, a[0])
		v, ok := m.mapGet(mp, a[1])
		if !ok || !m.decide(m.valEq(v, a[2])) {
			return mkBool(false)
		}
		noRO(m, func() { m.mapSet(mp, a[1], a[3]) })
		return mkBool(true)
	}, "(*sync.Map).CompareAndSwap")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		mp := smapNew(m, a[0])
		v, ok := m.mapGet(mp, a[1])
		if !ok || !m.decide(m.valEq(v, a[2])) {
			return mkBool(false)
		}
		noRO(m, func() { m.mapDelete(mp, a[1]) })
		return mkBool(true)
	}, "(*sync.Map).CompareAndDelete")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		noRO(m, func() { m.mapClear(smapNew(m, a[0])) })
		return Value{}
	}, "(*sync.Map).Clear")

	// atomics
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		load := func(m *Machine, fn *Fn, a []Value) Value {
			p, ok := a[0].P.(*Value)
			if !ok {
				m.nilDeref()
			}
			return *p
		}
		astore := func(m *Machine, p *Value, v Value) {
			r := m.roOn
			m.roOn = false
			m.store(p, v)
			m.roOn = r
		}
		store := func(m *Machine, fn *Fn, a []Value) Value {
			p, ok := a[0].P.(*Value)
			if !ok {
				m.nilDeref()
			}
			astore(m, p, a[1])
			return Value{}
		}
		cas := func(m *Machine, fn *Fn, a []Value) Value {
			p, ok := a[0].P.(*Value)
			if !ok {
				m.nilDeref()
			}
			if m.decide(m.valEq(*p, a[1])) {
				astore(m, p, a[2])
				return mkBool(true)
			}
			return mkBool(false)
		}
		swap := func(m *Machine, fn *Fn, a []Value) Value {
			p := a[0].P.(*Value)
			old := *p
			astore(m, p, a[1])
			return old
		}
		for _, ty := range []struct {
			n string
			w uint8
		}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 64}} {
			w := ty.w
			reg(load, pk+".Load"+ty.n)
			reg(store, pk+".Store"+ty.n)
			reg(cas, pk+".CompareAndSwap"+ty.n)
			reg(swap, pk+".Swap"+ty.n)
			reg(func(m *Machine, fn *Fn, a []Value) Value {
				p := a[0].P.(*Value)
				n := m.tv(m.tc.Add(m.term(*p, w), m.term(a[1], w)))
				astore(m, p, n)
				return n
			}, pk+".Add"+ty.n)
			bit := func(or bool) Intrinsic {
				return func(m *Machine, fn *Fn, a []Value) Value {
					p := a[0].P.(*Value)
					old := *p
					n := m.tc.BAnd(m.term(*p, w), m.term(a[1], w))
					if or {
						n = m.tc.BOr(m.term(*p, w), m.term(a[1], w))
					}
					astore(m, p, m.tv(n))
					return old
				}
			}
			reg(bit(true), pk+".Or"+ty.n)
			reg(bit(false), pk+".And"+ty.n)
		}
	}
	av := func(v Value) *Value { return &v.P.(*Value).P.(Agg)[0] }
	reg(func(m *Machine, fn *Fn, a []Value) Value { return *av(a[0]) }, "(*sync/atomic.Value).Load")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		r := m.roOn
		m.roOn = false
		m.store(av(a[0]), a[1])
		m.roOn = r
		return Value{}
	}, "(*sync/atomic.Value).Store")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		old := *av(a[0])
		noRO(m, func() { m.store(av(a[0]), a[1]) })
		return old
	}, "(*sync/atomic.Value).Swap")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if !m.decide(m.valEq(*av(a[0]), a[1])) {
			return mkBool(false)
		}
		noRO(m, func() { m.store(av(a[0]), a[2]) })
		return mkBool(true)
	}, "(*sync/atomic.Value).CompareAndSwap")

	// ANTLR's DFA caches: an edge for a symbolic symbol is neither cached nor found
	const antlr = "(*github.com/antlr4-go/antlr/v4.DFAState)."
	edges := func(m *Machine, fn *Fn, a []Value) []Value {
		d, ok := a[0].P.(*Value)
		if !ok {
			m.nilDeref()
		}
		i := structField(fn.ssa.Params[0].Type(), "edges")
		return sliceVals(d.P.(Agg)[i])
	}
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		e := edges(m, fn, a)
		if a[1].P != nil {
			return Value{}
		}
		if a[1].N >= uint64(len(e)) {
			m.throwRT("index out of range")
		}
		return e[a[1].N]
	}, antlr+"getIthEdge")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		e := edges(m, fn, a)
		if a[1].P != nil {
			return Value{}
		}
		if a[1].N >= uint64(len(e)) {
			m.throwRT("index out of range")
		}
		m.store(&e[a[1].N], a[2])
		return Value{}
	}, antlr+"setIthEdge")

	// environment
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		k, _ := isConcStr(a[0])
		v, ok := m.env[k]
		if fn.ssa.Signature.Results().Len() == 2 {
			return Value{P: Tup{mkStr(v), mkBool(ok)}}
		}
		return mkStr(v)
	}, "os.Getenv", "os.LookupEnv", "syscall.Getenv")

	// maths without Go bodies
	reg(constV(Value{}), "internal/cpu.Initialize")
}

type rng struct{ lo, hi rune }

func rangesOf(pred func(rune) bool) []rng {
	var rs []rng
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		if pred(r) {
			if n := len(rs); n > 0 && rs[n-1].hi == r-1 {
				rs[n-1].hi = r
			} else {
				rs = append(rs, rng{r, r})
			}
		}
	}
	return rs
}

// inRanges builds membership of a 32-bit rune term.
func (m *Machine) inRanges(t *Term, rs []rng) *Term {
	tc := m.tc
	lim := []rune{0x80, 0x800, 0x10000, 0x110000}
	lo := rune(0)
	for _, hi := range lim {
		if hi == 0x110000 || m.decide(tc.Ult(t, tc.Const(32, uint64(hi)))) {
			r := tc.F
			for _, x := range rs {
				a, b := x.lo, x.hi
				if b < lo || a >= hi {
					continue
				}
				r = tc.Or(r, tc.And(tc.Ule(tc.Const(32, uint64(a)), t), tc.Ule(t, tc.Const(32, uint64(b)))))
			}
			return r
		}
		lo = hi
	}
	return tc.F
}

var _ = utf8.RuneError
var _ = fmt.Sprint

// structField gives the index of a field of the struct t points to.
func structField(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic("no field " + name)
}
