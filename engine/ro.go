package main

// Read-only region monitor: writes to memory that existed before the region
// began (and is therefore reachable by other goroutines) are violations unless
// a lock that is itself shared is held; memory so written must not be read
// outside a lock.

func (m *Machine) roCheck(p any) {
	if m.noJournal > 0 {
		return
	}
	if _, ok := m.ro[p]; !ok {
		return
	}
	if m.lockDepth <= 0 {
		panic(endSig{endViolation, "shared write: memory reachable by other goroutines is written at " + m.repoWhere()})
	}
	if m.roRead[p] {
		panic(endSig{endViolation, "shared write: memory read without a lock is written under one at " + m.repoWhere()})
	}
	if !m.roWritten[p] && !m.inOnce() {
		m.roWritten[p] = true
		m.onUndo(func() { delete(m.roWritten, p) })
	}
}

// inOnce: what a sync.Once writes, everybody who passed it may read.
func (m *Machine) inOnce() bool {
	for f := m.fr; f != nil; f = f.caller {
		if f.fn.ssa != nil && f.fn.ssa.String() == "(*sync.Once).doSlow" {
			return true
		}
	}
	return false
}

// roLoad notes a read of memory reachable by other goroutines outside a lock.
func (m *Machine) roLoad(p any) {
	if m.noJournal > 0 || m.lockDepth > 0 || m.rlockDepth > 0 {
		return
	}
	if _, ok := m.ro[p]; !ok || m.roRead[p] {
		return
	}
	if m.roWritten[p] {
		panic(endSig{endViolation, "shared write: memory written under a lock is read without one at " + m.repoWhere()})
	}
	m.roRead[p] = true
	m.onUndo(func() { delete(m.roRead, p) })
}

// repoWhere gives the innermost frame inside the repository.
func (m *Machine) repoWhere() string {
	for f := m.fr; f != nil; f = f.caller {
		if f.fn.repo {
			return m.frameWhere(f)
		}
	}
	return m.where()
}

// roBegin collects every cell reachable from globals and the live frames.
func (m *Machine) roBegin() {
	ro := map[any]struct{}{}
	var visit func(v Value)
	var cell func(p *Value)
	var sl func(s []Value)
	type sk struct {
		p *Value
		n int
	}
	seenS := map[sk]bool{}
	seenF := map[*Func]bool{}
	var work []func()
	sl = func(s []Value) {
		s = s[:cap(s)]
		if len(s) == 0 {
			return
		}
		k := sk{&s[0], len(s)}
		if seenS[k] {
			return
		}
		seenS[k] = true
		for i := range s {
			cell(&s[i])
		}
	}
	cell = func(p *Value) {
		if _, ok := ro[p]; ok {
			return
		}
		ro[p] = struct{}{}
		v := *p
		if v.P != nil {
			work = append(work, func() { visit(v) })
		}
	}
	visit = func(v Value) {
		switch x := v.P.(type) {
		case *Value:
			cell(x)
		case Agg:
			for i := range x {
				cell(&x[i])
			}
		case []Value:
			sl(x)
		case Tup:
			for i := range x {
				visit(x[i])
			}
		case *Iface:
			visit(x.v)
		case *Map:
			if _, ok := ro[x]; ok {
				return
			}
			ro[x] = struct{}{}
			for i := range x.keys {
				if x.live[i] {
					visit(x.keys[i])
					visit(x.vals[i])
				}
			}
		case *Func:
			if seenF[x] {
				return
			}
			seenF[x] = true
			for _, b := range x.bindings {
				visit(b)
			}
		case *SymPtr:
			sl(x.elems)
		case *Chan:
			for i := range x.buf {
				visit(x.buf[i])
			}
		}
	}
	for _, g := range m.globals {
		if g != nil {
			cell(g)
		}
	}
	for f := m.fr; f != nil; f = f.caller {
		for _, r := range f.regs {
			visit(r)
		}
	}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		w()
	}
	m.ro = ro
	m.roRead, m.roWritten = map[any]bool{}, map[any]bool{}
	m.roOn = true
}
