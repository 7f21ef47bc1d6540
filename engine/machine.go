package main

import (
	"fmt"
	"go/token"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferNode struct {
	next *deferNode
	fn   *Fn
	fv   *Func
	args []Value
	bi   string
	ti   *TypeInfo
	ti2  *TypeInfo
}

// Frame of the interpreted stack. A shared frame is immutable (clone to use).
type Frame struct {
	fn      *Fn
	regs    []Value
	pc      int32
	retDst  int32
	caller  *Frame
	defers  *deferNode
	panicV  Value
	mode    uint8 // 0 normal, 1 panicking, 2 recovered (running remaining defers)
	shared  bool
	base    bool
	isDefer bool
	gor     bool // the first frame of a goroutine
}

func (f *Frame) clone() *Frame {
	g := *f
	g.regs = append([]Value(nil), f.regs...)
	g.shared = false
	return &g
}

type jent struct {
	p    *Value
	old  Value
	undo func()
}

// choice is a point with unexplored alternatives.
type choice struct {
	fr       *Frame
	jmark    int
	pcLen    int
	ilog     []int32
	trailLen int
	steps    int64
	nInputs  int
	nObs     int
	nCover   int
	// decide: alternative value and the condition to assert
	isDecide bool
	alt      int32
	n        int32 // choose: number of options
	cond     *Term
	model    []uint64
	hasModel bool
	depth    int
	lockDep  int
	roOn     bool
	mapOrder int
	base     *Frame
}

type throwSig struct{ v Value }

type endKind int

const (
	endDone endKind = iota
	endInfeasible
	endViolation
	endUnsupported
	endSteps
	endUnknown
	endDeadline
)

type endSig struct {
	kind endKind
	msg  string
}

// Input is one value drawn from the symbolic API.
type Input struct {
	kind string
	t    *Term // variable, or nil for a chosen value
	v    uint64
	w    uint8
}

type Obs struct {
	label string
	v     Value
	kind  string
}

// Machine executes one harness symbolically.
type Machine struct {
	p       *Program
	tc      *TermCtx
	sol     *Solver
	globals []*Value
	inited  map[*ssa.Package]bool
	fr      *Frame
	base    *Frame
	steps   int64
	allStep int64

	jrn       []jent
	noJournal int
	cps       []*choice
	pc        []*Term
	ilog      []int32
	ipos      int
	trail     []int32
	forced    []int32
	model     []uint64
	modelOK   bool

	dom      map[int32]*[4]uint64
	entangle map[int32]int
	varsMemo map[uint32][]int32

	inputs []Input
	varTab map[[2]int]*Term
	obs    []Obs
	covers []string

	mapOrder  int
	lockDepth int
	ro        map[any]struct{}
	roOn      bool
	// in a read-only region: cells read outside locks, written under locks
	roRead, roWritten map[any]bool
	rlockDepth        int
	callDepth         int
	inMark            int
	nres              Value
	pushed            bool
	baseDone          bool

	g           *gor // the running goroutine (nil: the harness, never suspended)
	runq        []*gor
	waiting     map[any][]*gor
	locks       map[*Value]int
	wgs         map[*Value]int64
	coroOf      map[*gor]*Value
	resumeTo    *gor
	curDefer    *deferNode // the deferred call being made natively
	nestedDepth int
	uniq        map[*TypeInfo][]*Value // what unique.Make made

	vfs        *VFS
	pools      map[*Value][]Value // what sync.Pools hold
	env        map[string]string
	h          *HarnessRun
	stepMax    int64
	pathMax    int64
	deadline   time.Time
	initName   string
	siteHits   map[string]int
	argbuf     []Value
	fnSeen     []uint32
	curSite    string
	allocLimit int64
	unkSeen    bool

	rtErrT *TypeInfo
}

func NewMachine(p *Program, h *HarnessRun) *Machine {
	tc := NewTermCtx()
	m := &Machine{p: p, tc: tc, sol: NewSolver(tc, h.solverTimeout), inited: map[*ssa.Package]bool{}, h: h,
		dom: map[int32]*[4]uint64{}, entangle: map[int32]int{}, varsMemo: map[uint32][]int32{}, varTab: map[[2]int]*Term{}}
	m.stepMax = h.stepMax
	m.modelOK = true
	m.vfs = newVFS()
	m.env = map[string]string{"LANG": "C.UTF-8", "HOME": "/nonexistent-home", "PATH": "/usr/bin:/bin"}
	return m
}

func (m *Machine) unsupported(f string, a ...any) {
	panic(endSig{endUnsupported, fmt.Sprintf(f, a...)})
}

// ---------- heap ----------

func (m *Machine) store(p *Value, v Value) {
	if a, ok := v.P.(Agg); ok {
		if d, ok := p.P.(Agg); ok {
			if len(d) != len(a) {
				m.unsupported("aggregate store size mismatch")
			}
			for i := range a {
				m.store(&d[i], a[i])
			}
			return
		}
		v = copyVal(v)
	}
	if m.roOn {
		m.roCheck(p)
	}
	if m.noJournal == 0 {
		m.jrn = append(m.jrn, jent{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) onUndo(f func()) {
	if m.noJournal == 0 {
		m.jrn = append(m.jrn, jent{undo: f})
	}
}

func (m *Machine) undoTo(mark int) {
	for i := len(m.jrn) - 1; i >= mark; i-- {
		e := &m.jrn[i]
		if e.undo != nil {
			e.undo()
			e.undo = nil
		} else {
			*e.p = e.old
			e.old = Value{}
		}
	}
	m.jrn = m.jrn[:mark]
}

// load reads *p for a value of type ti.
func (m *Machine) load(pv Value, ti *TypeInfo) Value {
	switch p := pv.P.(type) {
	case *Value:
		if m.roOn {
			m.roLoad(p)
		}
		v := *p
		if a, ok := v.P.(Agg); ok {
			if ti != nil && ti.kind != KStruct && ti.kind != KArray {
				// type-punned access to the first word of an aggregate
				for {
					if len(a) == 0 {
						m.unsupported("punned load of empty aggregate")
					}
					v = a[0]
					if b, ok := v.P.(Agg); ok {
						a = b
						continue
					}
					return v
				}
			}
			return copyVal(v)
		}
		if ti != nil && ti.kind == KString {
			if b, ok := v.P.([]Value); ok { // *(*string)(unsafe.Pointer(&bytes))
				return mkStrBytes(b)
			}
		}
		return v
	case *SymPtr:
		return m.symLoad(p, ti)
	case nil:
		m.nilDeref()
	}
	m.unsupported("load through %T", pv.P)
	return Value{}
}

func (m *Machine) nilDeref() {
	m.throwRT("invalid memory address or nil pointer dereference")
}

// symLoad reads elems[idx] for symbolic idx (known in range).
func (m *Machine) symLoad(p *SymPtr, ti *TypeInfo) Value {
	if ti != nil && (ti.kind == KInt || ti.kind == KBool) {
		if v, ok := m.symSelect(p.elems, p.idx, ti.w); ok {
			return v
		}
	}
	i := m.concretize(p.idx)
	return copyVal(p.elems[i])
}

// symSelect builds an ite over runs of equal scalars of width w.
func (m *Machine) symSelect(elems []Value, idx *Term, w uint8) (Value, bool) {
	tc := m.tc
	if len(elems) == 0 {
		return Value{}, false
	}
	hi := len(elems) - 1
	if idx.w < 63 && uint64(hi) > mask(idx.w) {
		hi = int(mask(idx.w))
	}
	type run struct {
		last int
		t    *Term
	}
	var runs []run
	for i := 0; i <= hi; i++ {
		t := m.term(elems[i], w)
		if n := len(runs); n > 0 && runs[n-1].t == t {
			runs[n-1].last = i
			continue
		}
		runs = append(runs, run{i, t})
		if len(runs) > 80 {
			return Value{}, false
		}
	}
	r := runs[len(runs)-1].t
	for i := len(runs) - 2; i >= 0; i-- {
		r = tc.Ite(tc.Ule(idx, tc.Const(idx.w, uint64(runs[i].last))), runs[i].t, r)
	}
	return m.tv(r), true
}

// tv makes a Value of a term.
func (m *Machine) tv(t *Term) Value {
	if t.isConst() {
		return Value{N: t.k}
	}
	return Value{P: t}
}

// term gives the term of scalar v with width w (0 = bool).
func (m *Machine) term(v Value, w uint8) *Term {
	if t, ok := v.P.(*Term); ok {
		if t.w != w {
			panic(fmt.Sprintf("width mismatch: term w=%d wanted %d in %s", t.w, w, m.where()))
		}
		return t
	}
	return m.tc.Const(w, v.N)
}

// ---------- path condition ----------

func (m *Machine) termVars(t *Term) []int32 {
	if v, ok := m.varsMemo[t.id]; ok {
		return v
	}
	seen := map[uint32]bool{}
	var vs []int32
	var rec func(*Term)
	rec = func(t *Term) {
		if t == nil || t.sv == -1 || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OpVar {
			vs = append(vs, int32(t.k))
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
	}
	rec(t)
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	m.varsMemo[t.id] = vs
	return vs
}

var fullDom = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (m *Machine) domOf(v int32) *[4]uint64 {
	if d, ok := m.dom[v]; ok {
		return d
	}
	return &fullDom
}

// pushPC adds c to the path condition (undone on backtrack by truncation).
func (m *Machine) pushPC(c *Term) {
	m.pc = append(m.pc, c)
	if c.sv >= 0 {
		tr := m.tc.Truth(c)
		old := m.domOf(c.sv)
		var d [4]uint64
		for i := range d {
			d[i] = old[i] & tr[i]
		}
		v := c.sv
		prev, had := m.dom[v]
		m.dom[v] = &d
		m.jrn = append(m.jrn, jent{undo: func() {
			if had {
				m.dom[v] = prev
			} else {
				delete(m.dom, v)
			}
		}})
	} else {
		vs := m.termVars(c)
		for _, v := range vs {
			m.entangle[v]++
		}
		m.jrn = append(m.jrn, jent{undo: func() {
			for _, v := range vs {
				m.entangle[v]--
			}
		}})
	}
}

// truncPC drops path conditions beyond n.
func (m *Machine) truncPC(n int) { m.pc = m.pc[:n] }

// slice selects the path conditions connected to c through shared variables.
func (m *Machine) slicePC(c *Term) ([]*Term, []int32) {
	vars := map[int32]bool{}
	for _, v := range m.termVars(c) {
		vars[v] = true
	}
	in := make([]bool, len(m.pc))
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if in[i] {
				continue
			}
			vs := m.termVars(p)
			hit := false
			for _, v := range vs {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				for _, v := range vs {
					if !vars[v] {
						vars[v] = true
						changed = true
					}
				}
			}
		}
	}
	var ts []*Term
	seen := map[*Term]bool{}
	for i, p := range m.pc {
		if in[i] && !seen[p] {
			seen[p] = true
			ts = append(ts, p)
		}
	}
	var vs []int32
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts, vs
}

// check decides pc ∧ c with Z3 (pc itself is known to be satisfiable, so only
// the conditions connected to c matter; the current model completes the answer).
func (m *Machine) check(c *Term) (SatResult, []uint64) {
	if time.Now().After(m.deadline) {
		panic(endSig{endDeadline, "deadline"})
	}
	m.ensureModel()
	ts, vs := m.slicePC(c)
	r, mod := m.sol.CheckSet(append(ts, c))
	if r != Sat {
		return r, nil
	}
	full := append([]uint64(nil), m.model...)
	for _, v := range vs {
		for len(full) <= int(v) {
			full = append(full, 0)
		}
		if int(v) < len(mod) {
			full[v] = mod[v]
		} else {
			full[v] = 0
		}
	}
	return Sat, full
}

func (m *Machine) ensureModel() bool {
	if m.modelOK {
		return true
	}
	r, mod := m.sol.CheckSet(m.pc)
	switch r {
	case Sat:
		m.model, m.modelOK = mod, true
		return true
	case Unsat:
		panic(endSig{endInfeasible, "path condition unsat"})
	}
	panic(endSig{endUnknown, "solver gave no answer for a path condition"})
}

func anyBit(d [4]uint64) int {
	for i, x := range d {
		if x != 0 {
			for b := 0; b < 64; b++ {
				if x>>uint(b)&1 != 0 {
					return i*64 + b
				}
			}
		}
	}
	return -1
}

// decide returns the truth of c on this path, forking when both are possible.
func (m *Machine) decide(c *Term) bool {
	if c.isConst() {
		return c.k != 0
	}
	if m.ipos < len(m.ilog) {
		v := m.ilog[m.ipos]
		m.ipos++
		return v != 0
	}
	if m.noJournal > 0 {
		m.unsupported("symbolic decision during package initialisation of %s", m.initName)
	}
	tc := m.tc
	if len(m.trail) < len(m.forced) {
		e := m.forced[len(m.trail)]
		v, implied := e&1, e&2 != 0
		if !implied {
			if v != 0 {
				m.pushPC(c)
			} else {
				m.pushPC(tc.Not(c))
			}
			m.modelOK = false
		}
		m.trail = append(m.trail, e)
		m.logDecision(v)
		return v != 0
	}
	implied := func(v int32) bool {
		m.trail = append(m.trail, v|2)
		m.logDecision(v)
		return v != 0
	}
	if c.sv >= 0 {
		tr := m.tc.Truth(c)
		d := m.domOf(c.sv)
		var t, f [4]uint64
		for i := range t {
			t[i] = d[i] & tr[i]
			f[i] = d[i] &^ tr[i]
		}
		tb, fb := anyBit(t), anyBit(f)
		if tb < 0 && fb < 0 {
			panic(endSig{endInfeasible, "empty domain"})
		}
		if tb < 0 {
			return implied(0)
		}
		if fb < 0 {
			return implied(1)
		}
		if m.entangle[c.sv] == 0 {
			m.h.fastDecisions.Add(1)
			m.ensureModel()
			cur := tc.Eval(c, m.model) != 0
			other := tb
			if cur {
				other = fb
			}
			alt := append([]uint64(nil), m.model...)
			for len(alt) <= int(c.sv) {
				alt = append(alt, 0)
			}
			alt[c.sv] = uint64(other)
			return m.fork(c, cur, alt)
		}
	}
	m.ensureModel()
	cur := tc.Eval(c, m.model) != 0
	oc := c
	if cur {
		oc = tc.Not(c)
	}
	r, mod := m.check(oc)
	switch r {
	case Unsat:
		return implied(int32(b2u(cur)))
	case Unknown:
		m.h.noteUnknown(m.where())
		return implied2(m, c, cur)
	}
	return m.fork(c, cur, mod)
}

// implied2 follows the known-feasible side and drops the undecided one.
func implied2(m *Machine, c *Term, cur bool) bool {
	if cur {
		m.pushPC(c)
	} else {
		m.pushPC(m.tc.Not(c))
	}
	v := int32(b2u(cur))
	m.trail = append(m.trail, v)
	m.logDecision(v)
	return cur
}

func (m *Machine) logDecision(v int32) {
	m.ilog = append(m.ilog, v)
	m.ipos++
}

// snapshot creates a choice point for the state at the start of this instruction.
func (m *Machine) snapshot() *choice {
	fr := m.fr.clone()
	for f := fr.caller; f != nil && !f.shared; f = f.caller {
		f.shared = true
	}
	cp := &choice{fr: fr, pcLen: len(m.pc), jmark: len(m.jrn), ilog: append([]int32(nil), m.ilog...), trailLen: len(m.trail),
		steps: m.steps, nInputs: m.inMark, nObs: len(m.obs), nCover: len(m.covers), depth: m.callDepth, lockDep: m.lockDepth, roOn: m.roOn, mapOrder: m.mapOrder, base: m.base}
	return cp
}

// fork: both sides of c feasible; take cur now (the current model satisfies it).
func (m *Machine) fork(c *Term, cur bool, altModel []uint64) bool {
	cp := m.snapshot()
	cp.isDecide = true
	cp.alt = 1 - int32(b2u(cur))
	if cur {
		cp.cond = m.tc.Not(c)
	} else {
		cp.cond = c
	}
	cp.model, cp.hasModel = altModel, altModel != nil
	m.cps = append(m.cps, cp)
	if cur {
		m.pushPC(c)
	} else {
		m.pushPC(m.tc.Not(c))
	}
	v := int32(b2u(cur))
	m.trail = append(m.trail, v)
	m.logDecision(v)
	m.h.forks.Add(1)
	m.traceFork()
	m.maybeShare()
	return cur
}

// traceFork prints where a path forks (a debugging aid).
func (m *Machine) traceFork() {
	if debugForks {
		fmt.Fprintln(os.Stderr, "fork:", strings.Join(m.stack(3), " < "))
	}
}

var debugForks = os.Getenv("GOSYM_FORKS") != ""

// choose picks one of n options (all explored).
func (m *Machine) choose(n int) int {
	if n <= 0 {
		panic(endSig{endInfeasible, "empty choice"})
	}
	if m.ipos < len(m.ilog) {
		v := m.ilog[m.ipos]
		m.ipos++
		return int(v)
	}
	if m.noJournal > 0 {
		return 0
	}
	if n == 1 {
		m.logDecision(0)
		return 0
	}
	if len(m.trail) < len(m.forced) {
		e := m.forced[len(m.trail)]
		m.trail = append(m.trail, e)
		m.logDecision(e)
		return int(e)
	}
	cp := m.snapshot()
	cp.alt, cp.n = 1, int32(n)
	cp.model, cp.hasModel = m.model, m.modelOK
	m.cps = append(m.cps, cp)
	m.trail = append(m.trail, 0)
	m.logDecision(0)
	m.h.forks.Add(1)
	m.traceFork()
	m.maybeShare()
	return 0
}

// concretize picks a value of t, forking over all its values.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	for n := 0; ; n++ {
		var v uint64
		if m.ipos < len(m.ilog) {
			// replayed: candidate values are recorded as pairs (value, outcome)
			lo, hi := m.ilog[m.ipos], m.ilog[m.ipos+1]
			m.ipos += 2
			v = uint64(uint32(lo)) | uint64(uint32(hi))<<32
		} else {
			if len(m.trail) < len(m.forced) {
				i := len(m.trail)
				v = uint64(uint32(m.forced[i])) | uint64(uint32(m.forced[i+1]))<<32
			} else {
				m.ensureModel()
				v = m.tc.Eval(t, m.model)
			}
			m.trail = append(m.trail, int32(uint32(v)), int32(uint32(v>>32)))
			m.ilog = append(m.ilog, int32(uint32(v)), int32(uint32(v>>32)))
			m.ipos += 2
		}
		if m.decide(m.tc.Eq(t, m.tc.Const(t.w, v))) {
			return v
		}
		if n > 5000 {
			m.unsupported("too many values to enumerate")
		}
	}
}

// concInt concretizes an integer value of width w.
func (m *Machine) conc(v Value) uint64 {
	if t, ok := v.P.(*Term); ok {
		return m.concretize(t)
	}
	return v.N
}

// backtrack resumes the next alternative; false when exploration is complete.
func (m *Machine) backtrack() bool {
	for len(m.cps) > 0 {
		cp := m.cps[len(m.cps)-1]
		m.undoTo(cp.jmark)
		m.truncPC(cp.pcLen)
		m.trail = m.trail[:cp.trailLen]
		m.inputs = m.inputs[:cp.nInputs]
		m.inMark = cp.nInputs
		m.obs = m.obs[:cp.nObs]
		m.covers = m.covers[:cp.nCover]
		m.steps = cp.steps
		m.callDepth = cp.depth
		m.lockDepth = cp.lockDep
		m.roOn = cp.roOn
		m.mapOrder = cp.mapOrder
		m.baseDone = false
		m.pushed = false
		m.curDefer, m.resumeTo, m.nestedDepth = nil, nil, 0
		m.base = cp.base
		m.ilog = append(m.ilog[:0], cp.ilog...)
		m.ipos = 0
		if cp.isDecide {
			m.cps = m.cps[:len(m.cps)-1]
			m.fr = cp.fr
			m.pushPC(cp.cond)
			m.trail = append(m.trail, cp.alt)
			m.ilog = append(m.ilog, cp.alt)
			m.model, m.modelOK = cp.model, cp.hasModel
			return true
		}
		v := cp.alt
		cp.alt++
		m.model, m.modelOK = cp.model, cp.hasModel
		if cp.alt >= cp.n {
			m.cps = m.cps[:len(m.cps)-1]
			m.fr = cp.fr
		} else {
			m.fr = cp.fr.clone()
		}
		m.trail = append(m.trail, v)
		m.ilog = append(m.ilog, v)
		return true
	}
	return false
}

// maybeShare gives the oldest alternative away when other workers are idle.
func (m *Machine) maybeShare() {
	if m.h.idle.Load() <= 0 || len(m.cps) < 1 {
		return
	}
	cp := m.cps[0]
	if cp.isDecide {
		tr := append(append([]int32(nil), m.trail[:cp.trailLen]...), cp.alt)
		m.h.submit(tr)
		// removing the oldest choice keeps the journal entries below it unused
		m.cps = m.cps[1:]
		return
	}
	for a := cp.alt; a < cp.n; a++ {
		tr := append(append([]int32(nil), m.trail[:cp.trailLen]...), a)
		m.h.submit(tr)
	}
	m.cps = m.cps[1:]
}

// ---------- panics of the interpreted program ----------

func (m *Machine) throw(v Value) { panic(throwSig{v}) }

func (m *Machine) throwRT(msg string) {
	if m.rtErrT == nil {
		pkg := m.p.ssa.ImportedPackage("runtime")
		m.rtErrT = typeOf(pkg.Type("errorString").Type())
	}
	m.throw(Value{P: &Iface{m.rtErrT, mkStr(msg)}})
}

// unwind continues a panic in frame fr (mode 1), running defers.
func (m *Machine) unwind() {
	fr := m.fr
	for {
		if fr.mode == 2 && fr.defers == nil {
			fr.mode = 0
			if fr.fn.recoverPC >= 0 {
				fr.pc = fr.fn.recoverPC
				m.fr = fr
				return
			}
			m.fr = fr
			var res Value
			if fr.fn.results == 1 {
				res = zero(fr.fn.resTypes[0])
			} else if fr.fn.results > 1 {
				t := make(Tup, fr.fn.results)
				for i := range t {
					t[i] = zero(fr.fn.resTypes[i])
				}
				res = Value{P: t}
			}
			m.ret(res)
			return
		}
		if d := fr.defers; d != nil {
			fr.defers = d.next
			m.fr = fr
			if m.runDeferred(d) {
				return
			}
			continue
		}
		// no defers left: propagate
		v := fr.panicV
		if fr.base || fr.gor {
			m.fr = fr
			m.uncaught(v)
		}
		parent := fr.caller
		if parent.shared {
			parent = parent.clone()
		}
		m.callDepth--
		parent.panicV = v
		parent.mode = 1
		fr = parent
		m.fr = fr
	}
}

// runDeferred starts a deferred call; false if it completed natively.
func (m *Machine) runDeferred(d *deferNode) bool {
	if d.bi != "" {
		ins := Ins{name: d.bi, ti: d.ti, ti2: d.ti2}
		m.builtin(&ins, d.args)
		return false
	}
	var bind []Value
	fn := d.fn
	if d.fv != nil {
		fn, bind = d.fv.fn, d.fv.bindings
	}
	m.curDefer = d
	r := m.invoke(fn, bind, d.args, noOperand, true)
	m.curDefer = nil
	return r
}

// invoke calls fn; true if a frame was pushed, otherwise the result is in m.nres.
func (m *Machine) invoke(fn *Fn, bind []Value, args []Value, dst int32, isDefer bool) bool {
	if fn.intr != nil {
		m.nres = fn.intr(m, fn, args)
		m.curDefer = nil
		m.inMark = len(m.inputs)
		if m.pushed {
			m.pushed = false
			m.fr.retDst = dst
			m.fr.isDefer = isDefer
			return true
		}
		return false
	}
	if fn.isPkgInit {
		m.nres = Value{}
		return false
	}
	if fn.model != nil {
		fn = fn.model
	}
	m.push(fn, bind, args)
	m.fr.retDst = dst
	m.fr.isDefer = isDefer
	return true
}

func (m *Machine) push(fn *Fn, bind []Value, args []Value) {
	m.p.compile(fn)
	if fn.err != "" {
		m.unsupported("%s (called from %s)", fn.err, m.where())
	}
	m.noteFn(fn)
	regs := make([]Value, fn.nregs)
	copy(regs, args)
	copy(regs[len(args):], bind)
	m.callDepth++
	if m.callDepth > 4000 {
		panic(endSig{endViolation, "stack overflow (unbounded recursion) in " + fn.name})
	}
	m.fr = &Frame{fn: fn, regs: regs, caller: m.fr, retDst: noOperand}
}

func (m *Machine) noteFn(fn *Fn) {
	for fn.id >= len(m.fnSeen) {
		m.fnSeen = append(m.fnSeen, make([]uint32, fn.id+256-len(m.fnSeen))...)
	}
	m.fnSeen[fn.id]++
}

// ret pops the current frame with result v.
func (m *Machine) ret(v Value) {
	fr := m.fr
	c := fr.caller
	m.callDepth--
	if fr.base {
		m.nres = v
		m.fr = c
		m.baseDone = true
		return
	}
	if fr.gor {
		m.endG()
		return
	}
	if c.shared {
		c = c.clone()
	}
	if fr.retDst >= 0 {
		c.regs[fr.retDst] = v
	}
	m.fr = c
	if c.mode != 0 {
		m.unwind()
	}
}

func (m *Machine) uncaught(v Value) {
	panic(endSig{endViolation, "panic: " + m.panicText(v)})
}

func (m *Machine) panicText(v Value) string {
	i, ok := v.P.(*Iface)
	if !ok {
		return "nil"
	}
	if s, ok := isConcStr(i.v); ok && i.t.kind == KString {
		if i.t == m.rtErrT {
			return "runtime error: " + s
		}
		return s
	}
	if i.t.kind == KString {
		if m.modelOK {
			return m.evalStr(i.v)
		}
	}
	return "value of type " + i.t.String()
}

func (m *Machine) evalStr(v Value) string {
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		r[i] = byte(m.evalVal(b[i]))
	}
	return string(r)
}

func (m *Machine) evalVal(v Value) uint64 {
	if t, ok := v.P.(*Term); ok {
		return m.tc.Eval(t, m.model)
	}
	return v.N
}

// where describes the current source position.
func (m *Machine) where() string {
	if m.fr == nil {
		return "?"
	}
	return m.frameWhere(m.fr)
}

func (m *Machine) frameWhere(fr *Frame) string {
	pos := token.NoPos
	for i := int(fr.pc); i >= 0 && i < len(fr.fn.code); i-- {
		if p := fr.fn.code[i].pos; p != token.NoPos {
			pos = p
			break
		}
	}
	if pos == token.NoPos {
		return fr.fn.name
	}
	p := m.p.fset.Position(pos)
	return fmt.Sprintf("%s %s:%d", fr.fn.name, shortPath(p.Filename), p.Line)
}

func shortPath(s string) string {
	if i := strings.Index(s, "/src/"); i >= 0 && strings.HasPrefix(s, "/opt/") {
		return s[i+5:]
	}
	if i := strings.Index(s, "/pkg/mod/"); i >= 0 {
		return s[i+9:]
	}
	return strings.TrimPrefix(s, "/repo/")
}

func (m *Machine) stack(max int) []string {
	var r []string
	for f := m.fr; f != nil && len(r) < max; f = f.caller {
		r = append(r, m.frameWhere(f))
	}
	return r
}

// ---------- package initialisation and nested runs ----------

func (m *Machine) globalAddr(g int32) *Value {
	if int(g) < len(m.globals) {
		if c := m.globals[g]; c != nil {
			return c
		}
	}
	m.p.mu.Lock()
	gl := m.p.globList[g]
	m.p.mu.Unlock()
	m.initPkg(gl.Pkg)
	if int(g) >= len(m.globals) || m.globals[g] == nil {
		m.setGlobal(g)
	}
	return m.globals[g]
}

func (m *Machine) setGlobal(g int32) {
	for int(g) >= len(m.globals) {
		m.globals = append(m.globals, make([]*Value, int(g)+64-len(m.globals))...)
	}
	if m.globals[g] == nil {
		m.p.mu.Lock()
		ti := m.p.globTI[g]
		m.p.mu.Unlock()
		c := new(Value)
		*c = zero(ti)
		m.globals[g] = c
	}
}

// packages whose initialiser is not executed (their state comes from intrinsics)
var skipInit = map[string]bool{"runtime": true, "syscall": true, "internal/cpu": true, "internal/poll": true,
	"internal/godebug": true, "internal/testlog": true, "internal/syscall/unix": true, "internal/runtime/maps": true}

func (m *Machine) initPkg(pkg *ssa.Package) {
	if m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			m.setGlobal(m.p.globalIndex(g))
		}
	}
	f := pkg.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	saved := m.initName
	m.initName = pkg.Pkg.Path()
	m.noJournal++
	ro := m.roOn
	m.roOn = false
	done := false
	defer func() {
		m.roOn = ro
		m.noJournal--
		m.initName = saved
		if !done { // the path ends here; another one must not see half of it
			delete(m.inited, pkg)
		}
	}()
	m.nested(m.p.fnOf(f), nil)
	done = true
}

// nested runs fn to completion without forking.
func (m *Machine) nested(fn *Fn, args []Value) Value {
	savedFr, savedBase, savedDone := m.fr, m.base, m.baseDone
	savedLog, savedPos := m.ilog, m.ipos
	savedDepth, savedSteps := m.callDepth, m.steps
	savedPushed := m.pushed
	m.pushed = false
	m.ilog, m.ipos = nil, 0
	m.callDepth = 0
	m.nestedDepth++
	m.push(fn, nil, args)
	m.fr.base = true
	m.base = m.fr
	m.baseDone = false
	m.run()
	r := m.nres
	m.nestedDepth--
	m.fr, m.base, m.baseDone = savedFr, savedBase, savedDone
	m.ilog, m.ipos = savedLog, savedPos
	m.callDepth = savedDepth
	m.allStep += m.steps - savedSteps
	m.steps = savedSteps
	m.pushed = savedPushed
	return r
}

// run executes until the base frame returns.
func (m *Machine) run() {
	for !m.baseDone {
		if t, thrown := m.loop(); thrown {
			m.curDefer = nil
			fr := m.fr
			fr.mode = 1
			fr.panicV = t
			// clear this instruction's decision log: it ended by a panic
			if m.ipos != 0 {
				m.ipos = 0
				m.ilog = m.ilog[:0]
			}
			m.guardUnwind()
		}
	}
}

// guardUnwind unwinds; a panic raised natively by a deferred call restarts it.
func (m *Machine) guardUnwind() {
	for {
		again := func() (again bool) {
			defer func() {
				if r := recover(); r != nil {
					if t, ok := r.(throwSig); ok {
						m.fr.mode = 1
						m.fr.panicV = t.v
						again = true
						return
					}
					panic(r)
				}
			}()
			m.unwind()
			return false
		}()
		if !again {
			return
		}
	}
}

func fbits(ti *TypeInfo, f float64) Value {
	if ti.w == 32 {
		return Value{N: uint64(math.Float32bits(float32(f)))}
	}
	return Value{N: math.Float64bits(f)}
}

func fval(ti *TypeInfo, v Value) float64 {
	if ti.w == 32 {
		return float64(math.Float32frombits(uint32(v.N)))
	}
	return math.Float64frombits(v.N)
}
