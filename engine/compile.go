package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type OpCode uint8

const (
	INop OpCode = iota
	IMove
	IAlloc
	IBinInt
	IBinOther
	INeg
	INotB
	ICompl
	ILoad
	IStore
	IField
	IFieldAddr
	IIndex
	IIndexAddrSlice
	IIndexAddrArr
	ILookupStr
	ILookupMap
	IMapUpdate
	IConvInt
	IConvert
	IMakeIface
	IChangeIface
	ITypeAssert
	ICallStatic
	ICallDyn
	ICallInvoke
	ICallBuiltin
	IDefer
	IRunDefers
	IMakeClosure
	IMakeMap
	IMakeSlice
	ISlice
	IExtract
	IRange
	INext
	IJump
	IIf
	IReturn
	IPanic
	IGo
	IMakeChan
	IRecv
	ISend
	ISelect
	ISliceToArr
	IUnsupported
)

// Edge of the control-flow graph with the phi moves to perform.
type Edge struct {
	pc   int32
	dst  []int32
	src  []int32
	back bool
}

type Ins struct {
	op      OpCode
	tok     token.Token
	w       uint8
	signed  bool
	commaOk bool
	w2      uint8 // second width (source width, shift count width)
	signed2 bool
	dst     int32
	a, b, c int32 // operands
	d       int32
	args    []int32
	ti      *TypeInfo
	ti2     *TypeInfo
	fn      *Fn
	k       int
	name    string
	e0, e1  *Edge
	pos     token.Pos
	site    int
}

const noOperand = math.MinInt32

// Program holds the SSA program and compiled functions (shared by machines).
type Program struct {
	ssa      *ssa.Program
	words    map[string][]string // string literals by package
	sizes    map[string][]int    // integer constants by package
	mu       sync.Mutex
	fns      map[*ssa.Function]*Fn
	fnList   []*Fn
	globals  map[*ssa.Global]int32
	globList []*ssa.Global
	globTI   []*TypeInfo
	pkgGlobs map[*ssa.Package][]int32
	models   map[string]*ssa.Function
	repoPath string
	fset     *token.FileSet
}

// fnOf returns the (lazily compiled) Fn of f.
func (p *Program) fnOf(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fnOfLocked(f)
}

func (p *Program) fnOfLocked(f *ssa.Function) *Fn {
	if fn, ok := p.fns[f]; ok {
		return fn
	}
	fn := &Fn{name: f.String(), ssa: f, id: len(p.fnList)}
	p.fns[f] = fn
	p.fnList = append(p.fnList, fn)
	key := fn.name
	if o := f.Origin(); o != nil && o != f {
		key = o.String()
	}
	if in, ok := intrinsics[key]; ok {
		fn.intr = in
	} else if i := strings.LastIndex(key, "zzverif/sym."); i >= 0 {
		if in, ok := symIntrinsics[key[i+len("zzverif/sym."):]]; ok {
			fn.intr = in
		}
	}
	if mf, ok := p.models[key]; ok && fn.intr == nil {
		fn.model = p.fnOfLocked(mf)
	}
	if key == "(*html/template.Template).Templates" || key == "(*text/template.Template).Templates" || strings.HasPrefix(key, "maps.") {
		fn.anyOrder = true // its result comes in map order
	}
	if f.Pkg != nil {
		pp := f.Pkg.Pkg.Path()
		fn.repo = strings.HasPrefix(pp, "github.com/youthlin/t") && !strings.Contains(pp, "/zzverif")
		fn.anyOrder = fn.anyOrder || fn.repo
		if f.Synthetic == "package initializer" {
			fn.isPkgInit = true
		}
	}
	return fn
}

func (p *Program) globalIndex(g *ssa.Global) int32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.globalIndexLocked(g)
}

func (p *Program) globalIndexLocked(g *ssa.Global) int32 {
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := int32(len(p.globList))
	p.globals[g] = i
	p.globList = append(p.globList, g)
	p.globTI = append(p.globTI, typeOf(g.Type().(*types.Pointer).Elem()))
	p.pkgGlobs[g.Pkg] = append(p.pkgGlobs[g.Pkg], i)
	return i
}

type compiler struct {
	p      *Program
	fn     *Fn
	f      *ssa.Function
	reg    map[ssa.Value]int32
	nreg   int32
	consts map[any]int32
}

func (p *Program) compile(fn *Fn) {
	fn.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(compileErr); ok {
					fn.err = string(s)
					return
				}
				panic(r)
			}
		}()
		c := &compiler{p: p, fn: fn, f: fn.ssa, reg: map[ssa.Value]int32{}, consts: map[any]int32{}}
		c.run()
	})
}

type compileErr string

func (c *compiler) val(v ssa.Value) int32 {
	if v == nil {
		return noOperand
	}
	switch x := v.(type) {
	case *ssa.Const:
		return c.constant(x)
	case *ssa.Global:
		if i, ok := c.consts[x]; ok {
			return i
		}
		g := c.p.globalIndex(x)
		c.fn.consts = append(c.fn.consts, constOp{glob: g + 1})
		i := -int32(len(c.fn.consts))
		c.consts[x] = i
		return i
	case *ssa.Function:
		if i, ok := c.consts[x]; ok {
			return i
		}
		return c.addConst(x, Value{P: &Func{fn: c.p.fnOf(x)}})
	case *ssa.Builtin:
		return c.addConst(x, Value{P: &Func{builtin: x.Name()}})
	}
	if r, ok := c.reg[v]; ok {
		return r
	}
	r := c.nreg
	c.nreg++
	c.reg[v] = r
	return r
}

func (c *compiler) addConst(key any, v Value) int32 {
	c.fn.consts = append(c.fn.consts, constOp{v: v})
	i := -int32(len(c.fn.consts))
	if key != nil {
		c.consts[key] = i
	}
	return i
}

func constValue(k *ssa.Const) Value {
	ti := typeOf(k.Type())
	if k.Value == nil {
		return zero(ti)
	}
	switch ti.kind {
	case KBool:
		return mkBool(constant.BoolVal(k.Value))
	case KInt:
		v := constant.ToInt(k.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return Value{N: u & mask(ti.w)}
		}
		i, _ := constant.Int64Val(v)
		return Value{N: uint64(i) & mask(ti.w)}
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if ti.w == 32 {
			return Value{N: uint64(math.Float32bits(float32(f)))}
		}
		return Value{N: math.Float64bits(f)}
	case KString:
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return mkStr(string(rune(i)))
	case KUnsafe:
		return Value{}
	case KIface, KPtr:
		return Value{}
	case KComplex:
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return Value{P: complex(re, im)}
	}
	panic(compileErr(fmt.Sprintf("const of type %s", ti)))
}

func (c *compiler) constant(k *ssa.Const) int32 {
	if i, ok := c.consts[k]; ok {
		return i
	}
	return c.addConst(k, constValue(k))
}

func (c *compiler) run() {
	f := c.f
	fn := c.fn
	if len(f.Blocks) == 0 {
		panic(compileErr("no body: " + fn.name))
	}
	for _, p := range f.Params {
		c.val(p)
	}
	for _, p := range f.FreeVars {
		c.val(p)
	}
	fn.nparams = len(f.Params)
	res := f.Signature.Results()
	fn.results = res.Len()
	for i := 0; i < res.Len(); i++ {
		fn.resTypes = append(fn.resTypes, typeOf(res.At(i).Type()))
	}
	start := make([]int32, len(f.Blocks))
	type patch struct {
		e *Edge
		b *ssa.BasicBlock
	}
	var patches []patch
	edge := func(from, to *ssa.BasicBlock) *Edge {
		e := &Edge{}
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		// when both successors are the same block, phis are equal for both edges only
		// if operands are; ssa builder does not emit such blocks with differing phis
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.dst = append(e.dst, c.val(ph))
			e.src = append(e.src, c.val(ph.Edges[pi]))
		}
		e.back = to.Index <= from.Index
		patches = append(patches, patch{e, to})
		return e
	}
	for _, b := range f.Blocks {
		start[b.Index] = int32(len(fn.code))
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				fn.code = append(fn.code, Ins{op: IJump, e0: edge(b, b.Succs[0])})
			case *ssa.If:
				fn.code = append(fn.code, Ins{op: IIf, a: c.val(x.Cond), e0: edge(b, b.Succs[0]), e1: edge(b, b.Succs[1]), pos: x.Cond.Pos()})
			default:
				i := c.instr(in)
				if i.pos == token.NoPos {
					i.pos = in.Pos()
				}
				fn.code = append(fn.code, i)
			}
		}
	}
	for _, p := range patches {
		p.e.pc = start[p.b.Index]
	}
	fn.recoverPC = -1
	if f.Recover != nil {
		fn.recoverPC = start[f.Recover.Index]
	}
	fn.nregs = int(c.nreg)
}

func (c *compiler) instr(in ssa.Instruction) Ins {
	var i Ins
	i.a, i.b, i.c, i.d, i.dst = noOperand, noOperand, noOperand, noOperand, noOperand
	if v, ok := in.(ssa.Value); ok {
		i.dst = c.val(v)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		i.op = IAlloc
		i.ti = typeOf(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		t := typeOf(x.X.Type())
		i.a, i.b = c.val(x.X), c.val(x.Y)
		i.tok, i.ti, i.w, i.signed = x.Op, t, t.w, t.signed
		i.op = IBinOther
		if t.kind == KInt || t.kind == KBool {
			i.op = IBinInt
		}
		ty := typeOf(x.Y.Type())
		i.w2, i.signed2 = ty.w, ty.signed
		if k, ok := x.Y.(*ssa.Const); ok && k.Value == nil && t.kind != KInt {
			i.ti2 = ty
		}
	case *ssa.UnOp:
		i.a = c.val(x.X)
		t := typeOf(x.X.Type())
		i.ti, i.w, i.signed = t, t.w, t.signed
		i.commaOk = x.CommaOk
		switch x.Op {
		case token.MUL:
			i.op = ILoad
			i.ti = typeOf(x.Type())
		case token.NOT:
			i.op = INotB
		case token.SUB:
			i.op = INeg
		case token.XOR:
			i.op = ICompl
		case token.ARROW:
			i.op = IRecv
		default:
			i.op, i.name = IUnsupported, "unop "+x.Op.String()
		}
	case *ssa.Call:
		c.call(&i, &x.Call)
	case *ssa.Defer:
		if x.DeferStack != nil {
			i.op, i.name = IUnsupported, "defer stack"
			break
		}
		c.call(&i, &x.Call)
		i.k = int(i.op)
		i.op = IDefer
	case *ssa.Go:
		c.call(&i, &x.Call)
		i.k = int(i.op)
		i.op = IGo
	case *ssa.ChangeInterface:
		i.op = IMove
		i.a = c.val(x.X)
	case *ssa.ChangeType:
		i.op = IMove
		i.a = c.val(x.X)
	case *ssa.Convert:
		i.a = c.val(x.X)
		i.ti, i.ti2 = typeOf(x.X.Type()), typeOf(x.Type())
		i.w, i.signed, i.w2, i.signed2 = i.ti.w, i.ti.signed, i.ti2.w, i.ti2.signed
		i.op = IConvert
		if i.ti.kind == KInt && i.ti2.kind == KInt {
			i.op = IConvInt
		}
	case *ssa.MultiConvert:
		i.op, i.name = IUnsupported, "multiconvert"
	case *ssa.SliceToArrayPointer:
		i.op, i.a, i.ti = ISliceToArr, c.val(x.X), typeOf(x.Type().Underlying())
	case *ssa.Extract:
		i.op, i.a, i.k = IExtract, c.val(x.Tuple), x.Index
	case *ssa.Field:
		i.op, i.a, i.k = IField, c.val(x.X), x.Field
	case *ssa.FieldAddr:
		i.op, i.a, i.k = IFieldAddr, c.val(x.X), x.Field
	case *ssa.Index:
		i.op, i.a, i.b = IIndex, c.val(x.X), c.val(x.Index)
		i.ti = typeOf(x.X.Type())
		ty := typeOf(x.Index.Type())
		i.w2, i.signed2 = ty.w, ty.signed
		i.ti2 = typeOf(x.Type())
		if i.ti.kind == KString {
			i.op = ILookupStr
		}
	case *ssa.IndexAddr:
		i.a, i.b = c.val(x.X), c.val(x.Index)
		t := typeOf(x.X.Type())
		i.op = IIndexAddrSlice
		if t.kind == KPtr {
			i.op = IIndexAddrArr
			i.k = t.elem.n
		}
		ty := typeOf(x.Index.Type())
		i.w2, i.signed2 = ty.w, ty.signed
	case *ssa.Lookup:
		i.a, i.b = c.val(x.X), c.val(x.Index)
		t := typeOf(x.X.Type())
		i.commaOk = x.CommaOk
		i.ti = t
		ty := typeOf(x.Index.Type())
		i.w2, i.signed2 = ty.w, ty.signed
		if t.kind == KString {
			i.op = ILookupStr
		} else {
			i.op = ILookupMap
		}
	case *ssa.MapUpdate:
		i.op, i.a, i.b, i.c = IMapUpdate, c.val(x.Map), c.val(x.Key), c.val(x.Value)
	case *ssa.MakeClosure:
		i.op = IMakeClosure
		i.fn = c.p.fnOf(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			i.args = append(i.args, c.val(b))
		}
	case *ssa.MakeInterface:
		i.op, i.a = IMakeIface, c.val(x.X)
		i.ti = typeOf(x.X.Type())
	case *ssa.MakeMap:
		i.op = IMakeMap
		i.ti = typeOf(x.Type()).key
		if i.ti == nil {
			i.ti = typeOf(x.Type().Underlying()).key
		}
	case *ssa.MakeSlice:
		i.op, i.a, i.b = IMakeSlice, c.val(x.Len), c.val(x.Cap)
		i.ti = typeOf(x.Type()).elem
		ty := typeOf(x.Len.Type())
		i.w, i.signed = ty.w, ty.signed
		ty = typeOf(x.Cap.Type())
		i.w2, i.signed2 = ty.w, ty.signed
	case *ssa.MakeChan:
		i.op, i.a, i.ti = IMakeChan, c.val(x.Size), typeOf(x.Type().Underlying()).elem
		ty := typeOf(x.Size.Type())
		i.w, i.signed = ty.w, ty.signed
	case *ssa.Slice:
		i.op, i.a, i.b, i.c, i.d = ISlice, c.val(x.X), c.val(x.Low), c.val(x.High), c.val(x.Max)
		i.ti = typeOf(x.X.Type())
		// index operands: record widths via converting them to 64-bit signed
		i.args = []int32{c.idxW(x.Low), c.idxW(x.High), c.idxW(x.Max)}
	case *ssa.Range:
		i.op, i.a = IRange, c.val(x.X)
		i.ti = typeOf(x.X.Type())
	case *ssa.Next:
		i.op, i.a = INext, c.val(x.Iter)
		i.commaOk = x.IsString
	case *ssa.Return:
		i.op = IReturn
		for _, r := range x.Results {
			i.args = append(i.args, c.val(r))
		}
	case *ssa.RunDefers:
		i.op = IRunDefers
	case *ssa.Panic:
		i.op, i.a = IPanic, c.val(x.X)
	case *ssa.Send:
		i.op, i.a, i.b = ISend, c.val(x.Chan), c.val(x.X)
	case *ssa.Select:
		i.op, i.commaOk, i.ti = ISelect, x.Blocking, typeOf(x.Type())
		for _, st := range x.States {
			v := int32(noOperand)
			if st.Send != nil {
				v = c.val(st.Send)
			}
			i.args = append(i.args, c.val(st.Chan), v, 0)
		}
	case *ssa.Store:
		i.op, i.a, i.b = IStore, c.val(x.Addr), c.val(x.Val)
	case *ssa.TypeAssert:
		i.op, i.a = ITypeAssert, c.val(x.X)
		i.ti = typeOf(x.AssertedType)
		i.ti2 = typeOf(x.X.Type())
		i.commaOk = x.CommaOk
	default:
		i.op, i.name = IUnsupported, fmt.Sprintf("%T", in)
	}
	return i
}

func (c *compiler) idxW(v ssa.Value) int32 {
	if v == nil {
		return 0
	}
	t := typeOf(v.Type())
	w := int32(t.w)
	if t.signed {
		w = -w
	}
	return w
}

func (c *compiler) call(i *Ins, cc *ssa.CallCommon) {
	for _, a := range cc.Args {
		i.args = append(i.args, c.val(a))
	}
	if cc.IsInvoke() {
		i.op = ICallInvoke
		i.a = c.val(cc.Value)
		i.name = methodKey(cc.Method)
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		i.op = ICallBuiltin
		i.name = f.Name()
		if len(cc.Args) > 0 {
			i.ti = typeOf(cc.Args[0].Type())
		}
		if len(cc.Args) > 1 {
			i.ti2 = typeOf(cc.Args[1].Type())
		}
		i.w2 = 0
		if i.name == "Sizeof" {
			i.w2 = uint8(types.SizesFor("gc", "amd64").Sizeof(cc.Args[0].Type()))
		}
	case *ssa.Function:
		i.op = ICallStatic
		i.fn = c.p.fnOf(f)
	case *ssa.MakeClosure:
		i.op = ICallDyn
		i.a = c.val(f)
	default:
		i.op = ICallDyn
		i.a = c.val(cc.Value)
	}
}

func methodKey(m *types.Func) string {
	if m.Exported() {
		return m.Name()
	}
	return m.Pkg().Path() + "." + m.Name()
}

// method resolves the method named by key on dynamic type ti.
func (p *Program) method(ti *TypeInfo, key string) *Fn {
	if v, ok := ti.meth.Load(key); ok {
		f, _ := v.(*Fn)
		return f
	}
	ms := p.ssa.MethodSets.MethodSet(ti.t)
	var fn *Fn
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if methodKey(sel.Obj().(*types.Func)) == key {
			if mv := p.ssa.MethodValue(sel); mv != nil {
				fn = p.fnOf(mv)
			}
			break
		}
	}
	ti.meth.Store(key, fn)
	return fn
}

// implements reports whether dynamic type ti satisfies interface it.
func implements(ti, it *TypeInfo) bool {
	if v, ok := ti.impl.Load(it); ok {
		return v.(bool)
	}
	r := types.Implements(ti.t, it.u.(*types.Interface))
	ti.impl.Store(it, r)
	return r
}
