package main

import (
	"fmt"
	"sort"
	"strings"
)

func (m *Machine) newInput(kind string, w uint8) Value {
	pos := len(m.inputs)
	key := [2]int{pos, int(w)}
	t, ok := m.varTab[key]
	if !ok {
		t = m.tc.NewVar(w, fmt.Sprintf("in%d", pos))
		m.varTab[key] = t
	}
	m.inputs = append(m.inputs, Input{kind: kind, t: t, w: w})
	return Value{P: t}
}

func (m *Machine) concStr(v Value) string {
	if s, ok := isConcStr(v); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		r[i] = byte(m.conc(b[i]))
	}
	return string(r)
}

func sreg(name string, f func(m *Machine, a []Value) Value) {
	symIntrinsics[name] = func(m *Machine, fn *Fn, a []Value) Value { return f(m, a) }
}

func init() {
	sreg("Byte", func(m *Machine, a []Value) Value { return m.newInput("byte", 8) })
	sreg("Bool", func(m *Machine, a []Value) Value { return m.newInput("bool", 0) })
	sreg("Int64", func(m *Machine, a []Value) Value { return m.newInput("int64", 64) })
	sreg("Int", func(m *Machine, a []Value) Value { return m.newInput("int64", 64) })
	sreg("Uint64", func(m *Machine, a []Value) Value { return m.newInput("int64", 64) })
	sreg("Uint32", func(m *Machine, a []Value) Value { return m.newInput("uint32", 32) })
	sreg("Rune", func(m *Machine, a []Value) Value { return m.newInput("uint32", 32) })
	sreg("Choose", func(m *Machine, a []Value) Value {
		n := int(m.conc(a[0]))
		c := m.choose(n)
		m.inputs = append(m.inputs, Input{kind: "choose", v: uint64(c)})
		return mkInt(c)
	})
	sreg("Word", func(m *Machine, a []Value) Value {
		list := m.p.wordList(m.concStr(a[0]), m.concStr(a[1]), int(m.conc(a[2])))
		w := list[m.choose(len(list))]
		m.inputs = append(m.inputs, Input{kind: "word", v: uint64(len(w))})
		for i := 0; i < len(w); i++ {
			m.inputs = append(m.inputs, Input{kind: "letter", v: uint64(w[i])})
		}
		return mkStr(w)
	})
	sreg("Size", func(m *Machine, a []Value) Value {
		list := m.p.sizeList(m.concStr(a[0]), int(m.conc(a[1])), int(m.conc(a[2])))
		n := list[m.choose(len(list))]
		m.inputs = append(m.inputs, Input{kind: "size", v: uint64(n)})
		return mkInt(n)
	})
	sreg("Bytes", func(m *Machine, a []Value) Value {
		n := int(m.conc(a[0]))
		b := make([]Value, n)
		for i := range b {
			b[i] = m.newInput("byte", 8)
		}
		return Value{P: b}
	})
	sreg("String", func(m *Machine, a []Value) Value {
		n := int(m.conc(a[0]))
		b := make([]Value, n)
		for i := range b {
			b[i] = m.newInput("byte", 8)
		}
		return mkStrBytesNoCopy(b)
	})
	sreg("StringIn", func(m *Machine, a []Value) Value {
		n := int(m.conc(a[0]))
		al := m.concStr(a[1])
		b := make([]Value, n)
		for i := range b {
			b[i] = m.newInput("byte", 8)
			t := b[i].P.(*Term)
			c := m.tc.F
			for j := 0; j < len(al); j++ {
				c = m.tc.Or(c, m.tc.Eq(t, m.tc.Const(8, uint64(al[j]))))
			}
			m.assume(c)
		}
		return mkStrBytesNoCopy(b)
	})
	sreg("Assume", func(m *Machine, a []Value) Value {
		m.assume(m.term(a[0], 0))
		return Value{}
	})
	sreg("Assert", func(m *Machine, a []Value) Value {
		msg, ok := isConcStr(a[1])
		if !ok {
			msg = "assertion"
		}
		m.assert(m.term(a[0], 0), msg)
		return Value{}
	})
	sreg("Fail", func(m *Machine, a []Value) Value {
		msg, ok := isConcStr(a[0])
		if !ok {
			msg = "failure"
		}
		m.assert(m.tc.F, msg)
		return Value{}
	})
	sreg("Cover", func(m *Machine, a []Value) Value {
		s, _ := isConcStr(a[0])
		m.covers = append(m.covers, s)
		return Value{}
	})
	obs := func(kind string) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			l, _ := isConcStr(a[0])
			m.obs = append(m.obs, Obs{l, a[1], kind})
			return Value{}
		}
	}
	sreg("ObserveStr", obs("str"))
	sreg("ObserveInt", obs("int"))
	sreg("ObserveBool", obs("bool"))
	junct := func(and bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			r := m.tc.Bool(and)
			for _, x := range sliceVals(a[0]) {
				if and {
					r = m.tc.And(r, m.term(x, 0))
				} else {
					r = m.tc.Or(r, m.term(x, 0))
				}
			}
			return m.tv(r)
		}
	}
	sreg("And", junct(true))
	sreg("Or", junct(false))
	sreg("Implies", func(m *Machine, a []Value) Value {
		return m.tv(m.tc.Or(m.tc.Not(m.term(a[0], 0)), m.term(a[1], 0)))
	})
	sreg("Not", func(m *Machine, a []Value) Value { return m.tv(m.tc.Not(m.term(a[0], 0))) })
	sreg("Iff", func(m *Machine, a []Value) Value {
		return m.tv(m.tc.Eq(m.term(a[0], 0), m.term(a[1], 0)))
	})
	sreg("IteInt", func(m *Machine, a []Value) Value {
		return m.tv(m.tc.Ite(m.term(a[0], 0), m.term(a[1], 64), m.term(a[2], 64)))
	})
	sreg("MapOrder", func(m *Machine, a []Value) Value { m.mapOrder = int(a[0].N); return Value{} })
	sreg("Thorough", func(m *Machine, a []Value) Value { return mkBool(m.h.thorough) })
	sreg("AllocLimit", func(m *Machine, a []Value) Value { m.allocLimit = int64(a[0].N); return Value{} })
	call := func(m *Machine, a []Value) Value {
		f := a[0].P.(*Func)
		m.push(f.fn, f.bindings, nil)
		m.pushed = true
		return Value{}
	}
	sreg("MeasureAlloc", call)
	sreg("Parallel", func(m *Machine, a []Value) Value {
		m.roBegin()
		return call(m, a)
	})
	sreg("Sequential", func(m *Machine, a []Value) Value { m.roOn = false; return Value{} })
	sreg("Path", func(m *Machine, a []Value) Value { return m.concat(mkStr(vroot), a[0]) })
	sreg("WriteFile", func(m *Machine, a []Value) Value {
		m.vfs.write(m, vroot+m.concStr(a[0]), append([]Value(nil), strBytes(a[1])...))
		return Value{}
	})
	sreg("ReadFile", func(m *Machine, a []Value) Value {
		b, ok := m.vfs.files[vroot+m.concStr(a[0])]
		return Value{P: Tup{mkStrBytes(b), mkBool(ok)}}
	})
	sreg("Setenv", func(m *Machine, a []Value) Value {
		k, v := m.concStr(a[0]), m.concStr(a[1])
		old, had := m.env[k]
		m.env[k] = v
		m.onUndo(func() {
			if had {
				m.env[k] = old
			} else {
				delete(m.env, k)
			}
		})
		return Value{}
	})
	sreg("XRead", func(m *Machine, a []Value) Value {
		name := m.concStr(a[0])
		if b, ok := m.vfs.files[name]; ok {
			return Value{P: Tup{mkStrBytes(b), mkInt(1)}}
		}
		if len(m.vfs.list(name)) > 0 || m.vfs.dirs[name] || name+"/" == vroot || name == "/" {
			return Value{P: Tup{Value{}, mkInt(2)}}
		}
		return Value{P: Tup{Value{}, mkInt(0)}}
	})
	sreg("XWrite", func(m *Machine, a []Value) Value {
		m.vfs.write(m, m.concStr(a[0]), append([]Value(nil), strBytes(a[1])...))
		return Value{}
	})
	sreg("XRemove", func(m *Machine, a []Value) Value {
		name := m.concStr(a[0])
		if old, ok := m.vfs.files[name]; ok {
			delete(m.vfs.files, name)
			m.onUndo(func() { m.vfs.files[name] = old })
		}
		return Value{}
	})
	sreg("XMkdir", func(m *Machine, a []Value) Value {
		name := m.concStr(a[0])
		if !m.vfs.dirs[name] {
			m.vfs.dirs[name] = true
			m.onUndo(func() { delete(m.vfs.dirs, name) })
		}
		return Value{}
	})
	sreg("XList", func(m *Machine, a []Value) Value {
		var r []Value
		for _, n := range m.vfs.list(m.concStr(a[0])) {
			r = append(r, mkStr(n))
		}
		return Value{P: r}
	})
	sreg("XExit", func(m *Machine, a []Value) Value {
		m.throwRT(fmt.Sprintf("os.Exit(%d)", int64(a[0].N)))
		return Value{}
	})
	sreg("Fix", func(m *Machine, a []Value) Value { return Value{N: m.conc(a[0])} })
	sreg("FixStr", func(m *Machine, a []Value) Value { return mkStr(m.concStr(a[0])) })
	sreg("Exhausted", func(m *Machine, a []Value) Value { return mkBool(true) })
}

const vroot = "/vroot/"

// VFS is the virtual file system seen by the os intrinsics.
type VFS struct {
	files map[string][]Value
	dirs  map[string]bool
}

func newVFS() *VFS { return &VFS{files: map[string][]Value{}, dirs: map[string]bool{}} }

// list gives the names directly below a directory.
func (v *VFS) list(dir string) []string {
	set := map[string]bool{}
	add := func(f string) {
		if rest, ok := strings.CutPrefix(f, strings.TrimSuffix(dir, "/")+"/"); ok && rest != "" {
			if i := strings.IndexByte(rest, '/'); i >= 0 {
				rest = rest[:i]
			}
			set[rest] = true
		}
	}
	for f := range v.files {
		add(f)
	}
	for f := range v.dirs {
		add(f)
	}
	return sortedKeys(set)
}

func (v *VFS) write(m *Machine, name string, data []Value) {
	old, had := v.files[name]
	v.files[name] = data
	m.onUndo(func() {
		if had {
			v.files[name] = old
		} else {
			delete(v.files, name)
		}
	})
}

// assume adds c to the path condition; the path ends when it cannot hold.
func (m *Machine) assume(c *Term) {
	if c.isConst() {
		if c.k == 0 {
			panic(endSig{endInfeasible, "assume"})
		}
		return
	}
	if len(m.trail) < len(m.forced) || m.ipos < len(m.ilog) {
		// replaying: the assumption was feasible then
		if m.tc.Eval(c, m.model) == 0 {
			m.modelOK = false
		}
		m.pushPCOnce(c)
		return
	}
	m.ensureModel()
	if m.tc.Eval(c, m.model) != 0 {
		m.pushPCOnce(c)
		return
	}
	if c.sv >= 0 && m.entangle[c.sv] == 0 {
		tr := m.tc.Truth(c)
		d := m.domOf(c.sv)
		var t [4]uint64
		for i := range t {
			t[i] = d[i] & tr[i]
		}
		b := anyBit(t)
		if b < 0 {
			panic(endSig{endInfeasible, "assume"})
		}
		mod := append([]uint64(nil), m.model...)
		for len(mod) <= int(c.sv) {
			mod = append(mod, 0)
		}
		mod[c.sv] = uint64(b)
		m.model = mod
		m.pushPCOnce(c)
		return
	}
	r, mod := m.check(c)
	switch r {
	case Unsat:
		panic(endSig{endInfeasible, "assume"})
	case Unknown:
		panic(endSig{endUnknown, "assume"})
	}
	m.model, m.modelOK = mod, true
	m.pushPCOnce(c)
}

// pushPCOnce pushes c (assumptions may be re-executed within an instruction
// that forks afterwards; pushing twice is harmless).
func (m *Machine) pushPCOnce(c *Term) {
	if n := len(m.pc); n > 0 && m.pc[n-1] == c {
		return
	}
	m.pushPC(c)
}

// assert checks that c holds for every value on this path.
func (m *Machine) assert(c *Term, msg string) {
	m.h.asserts.Add(1)
	if len(m.trail) < len(m.forced) {
		// decided by the worker that explored this prefix
		if c.isConst() && c.k == 0 {
			panic(endSig{endInfeasible, "assert in prefix"})
		}
		if !c.isConst() {
			m.pushPC(c)
			m.modelOK = false
		}
		return
	}
	if c.isConst() {
		if c.k != 0 {
			return
		}
		m.ensureModel()
		m.h.violation(m, "assert: "+msg, m.model)
		panic(endSig{endInfeasible, "assertion fails on the whole path"})
	}
	m.h.assertQueries.Add(1)
	r, mod := m.check(m.tc.Not(c))
	if m.h.crossEvery > 0 && m.h.assertQueries.Load()%m.h.crossEvery == 1 {
		m.h.cross(m, m.tc.Not(c), r)
	}
	switch r {
	case Unsat:
		return
	case Unknown:
		m.h.noteUnknown("assert " + msg)
		return
	}
	m.h.violation(m, "assert: "+msg, mod)
	// continue under the asserted condition, if possible
	r, mod = m.check(c)
	if r != Sat {
		panic(endSig{endInfeasible, "assertion fails on the whole path"})
	}
	m.model, m.modelOK = mod, true
	m.pushPC(c)
}

// wordList gives the string literals of the packages whose path ends in suffix
// that are of a kind and at most max bytes long, or one that is none of them.
func (p *Program) wordList(suffix, kind string, max int) []string {
	seen := map[string]bool{"zq": true}
	for path, list := range p.words {
		if !strings.HasSuffix(path, suffix) {
			continue
		}
		for _, w := range list {
			ok := len(w) > 0 && len(w) <= max
			for i := 0; i < len(w) && ok; i++ {
				c := w[i]
				letter := c == '_' || c|32 >= 'a' && c|32 <= 'z'
				switch kind {
				case "ident":
					ok = letter || i > 0 && c >= '0' && c <= '9'
				case "text":
					ok = c >= ' ' && c < 127
				}
			}
			if ok {
				seen[w] = true
			}
		}
	}
	out := make([]string, 0, len(seen))
	for w := range seen {
		out = append(out, w)
	}
	sort.Strings(out)
	return out
}

// sizeList gives min, max and the integer constants of the packages whose path
// ends in suffix, with their neighbours, as far as they lie between the two.
func (p *Program) sizeList(suffix string, min, max int) []int {
	seen := map[int]bool{min: true, max: true}
	for path, list := range p.sizes {
		if strings.HasSuffix(path, suffix) {
			for _, v := range list {
				for d := -1; d <= 1; d++ {
					if min <= v+d && v+d <= max {
						seen[v+d] = true
					}
				}
			}
		}
	}
	out := make([]int, 0, len(seen))
	for v := range seen {
		out = append(out, v)
	}
	sort.Ints(out)
	return out
}
