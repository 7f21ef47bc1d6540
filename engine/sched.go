package main

import "golang.org/x/tools/go/ssa"

// Goroutines, channels and locks. Goroutines are scheduled cooperatively: one
// runs until it blocks, then the longest-waiting runnable one continues (one
// schedule, not all of them). A blocked operation is executed again when its
// goroutine continues.

type gor struct {
	fr      *Frame // suspended state (immutable)
	depth   int
	lock    int
	rlock   int
	wake    *wakeRes
	episode int
}

type wakeRes struct {
	ci     int
	val    Value
	ok     bool
	closed bool // a send on a channel that was closed meanwhile
}

type waiter struct {
	g       *gor
	ci      int
	val     Value
	episode int
}

// Chan is an interpreted channel.
type Chan struct {
	ti     *TypeInfo
	cap    int
	buf    []Value
	recvq  []waiter
	sendq  []waiter
	closed bool
}

type chanCase struct {
	ch   *Chan
	send bool
	val  Value
}

type blockSig struct{}

func (m *Machine) setChan(c *Chan, n Chan) {
	old := *c
	*c = n
	m.onUndo(func() { *c = old })
}

func (m *Machine) setRunq(q []*gor) {
	old := m.runq
	m.runq = q
	m.onUndo(func() { m.runq = old })
}

func (m *Machine) ready(gs ...*gor) { m.setRunq(append(m.runq[:len(m.runq):len(m.runq)], gs...)) }

func (m *Machine) curG() *gor {
	if m.g == nil {
		m.g = &gor{} // the harness itself
		m.onUndo(func() { m.g = nil })
	}
	return m.g
}

func (m *Machine) setWake(g *gor, w *wakeRes) {
	ow, oe := g.wake, g.episode
	g.wake = w
	if w != nil {
		g.episode++
	}
	m.onUndo(func() { g.wake, g.episode = ow, oe })
}

// park saves the state of the running goroutine, to continue at frame fr.
func (m *Machine) park(fr *Frame) *gor {
	g := m.curG()
	old := *g
	for f := fr; f != nil && !f.shared; f = f.caller {
		f.shared = true
	}
	g.fr, g.depth, g.lock, g.rlock = fr, m.callDepth, m.lockDepth, m.rlockDepth
	m.onUndo(func() { g.fr, g.depth, g.lock, g.rlock = old.fr, old.depth, old.lock, old.rlock })
	return g
}

// resume makes g the running goroutine.
func (m *Machine) resume(g *gor) {
	og, l, r, d := m.g, m.lockDepth, m.rlockDepth, m.callDepth
	m.g = g
	m.fr = g.fr.clone()
	m.callDepth, m.lockDepth, m.rlockDepth = g.depth, g.lock, g.rlock
	m.onUndo(func() { m.g, m.lockDepth, m.rlockDepth, m.callDepth = og, l, r, d })
}

// next continues the first runnable goroutine.
func (m *Machine) switchNext() {
	if len(m.runq) == 0 {
		panic(endSig{endViolation, "deadlock: all goroutines are blocked at " + m.repoWhere()})
	}
	g := m.runq[0]
	m.setRunq(m.runq[1:])
	m.resume(g)
}

// blocked stops the running goroutine in the middle of an instruction.
func (m *Machine) blocked() {
	if m.noJournal > 0 || m.nestedDepth > 0 {
		m.unsupported("blocking operation during initialisation")
	}
	m.curG()
	if len(m.runq) == 0 {
		panic(endSig{endViolation, "deadlock: all goroutines are blocked at " + m.repoWhere()})
	}
	panic(blockSig{})
}

// afterBlock is called outside the instruction that raised blockSig.
func (m *Machine) afterBlock() {
	fr := m.fr
	if d := m.curDefer; d != nil {
		if fr.mode != 0 {
			m.unsupported("blocking deferred call while panicking")
		}
		fr.defers = d
	}
	m.curDefer = nil
	m.ipos, m.ilog = 0, m.ilog[:0]
	m.park(fr)
	m.switchNext()
}

func (m *Machine) goStart(fn *Fn, bind, args []Value) {
	if m.noJournal > 0 || m.nestedDepth > 0 {
		m.unsupported("go statement during initialisation")
	}
	m.ready(m.newG(fn, bind, args))
}

func (m *Machine) newG(fn *Fn, bind, args []Value) *gor {
	m.curG()
	if fn.intr != nil || fn.isPkgInit {
		m.unsupported("go statement calling %s", fn.name)
	}
	if fn.model != nil {
		fn = fn.model
	}
	fr, d := m.fr, m.callDepth
	m.push(fn, bind, args)
	g := &gor{fr: m.fr, depth: 1, episode: 1}
	g.fr.caller, g.fr.gor, g.fr.shared = nil, true, true
	m.fr, m.callDepth = fr, d
	return g
}

// endG ends the running goroutine, whose first function returned.
func (m *Machine) endG() {
	if c := m.coroOf[m.g]; c != nil { // the end of a coroutine goes back to who resumed it
		g, _ := c.P.(*gor)
		old := *c
		*c = Value{}
		m.onUndo(func() { *c = old })
		m.resume(g)
		return
	}
	m.switchNext()
}

// chanOp performs a channel operation: the index of the case that went
// through (-1: none was ready and the operation does not block).
func (m *Machine) chanOp(cs []chanCase, block bool) (int, Value, bool) {
	g := m.curG()
	if w := g.wake; w != nil {
		m.setWake(g, nil)
		if w.closed {
			m.throwPlain("send on closed channel")
		}
		return w.ci, w.val, w.ok
	}
	live := func(q []waiter) []waiter {
		for len(q) > 0 && q[0].episode != q[0].g.episode {
			q = q[1:]
		}
		return q
	}
	for i, c := range cs {
		ch := c.ch
		if ch == nil {
			continue
		}
		n := *ch
		if c.send {
			if ch.closed {
				m.throwPlain("send on closed channel")
			}
			if q := live(n.recvq); len(q) > 0 {
				n.recvq = q[1:]
				m.setChan(ch, n)
				m.setWake(q[0].g, &wakeRes{ci: q[0].ci, val: c.val, ok: true})
				m.ready(q[0].g)
				return i, Value{}, false
			}
			if len(n.buf) < n.cap {
				n.buf = append(n.buf[:len(n.buf):len(n.buf)], copyVal(c.val))
				m.setChan(ch, n)
				return i, Value{}, false
			}
			continue
		}
		q := live(n.sendq)
		if len(n.buf) > 0 {
			v := n.buf[0]
			n.buf = n.buf[1:]
			if len(q) > 0 {
				n.buf = append(n.buf[:len(n.buf):len(n.buf)], q[0].val)
				n.sendq = q[1:]
				m.setWake(q[0].g, &wakeRes{ci: q[0].ci})
				m.ready(q[0].g)
			}
			m.setChan(ch, n)
			return i, v, true
		}
		if len(q) > 0 {
			n.sendq = q[1:]
			m.setChan(ch, n)
			m.setWake(q[0].g, &wakeRes{ci: q[0].ci})
			m.ready(q[0].g)
			return i, q[0].val, true
		}
		if ch.closed {
			return i, zero(ch.ti), false
		}
	}
	if !block {
		return -1, Value{}, false
	}
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		n := *c.ch
		w := waiter{g, i, copyVal(c.val), g.episode}
		if c.send {
			n.sendq = append(n.sendq[:len(n.sendq):len(n.sendq)], w)
		} else {
			n.recvq = append(n.recvq[:len(n.recvq):len(n.recvq)], w)
		}
		m.setChan(c.ch, n)
	}
	m.blocked()
	return 0, Value{}, false
}

func (m *Machine) chanClose(v Value) {
	ch, _ := v.P.(*Chan)
	if ch == nil {
		m.throwPlain("close of nil channel")
	}
	if ch.closed {
		m.throwPlain("close of closed channel")
	}
	n := *ch
	for _, w := range n.recvq {
		if w.episode == w.g.episode {
			m.setWake(w.g, &wakeRes{ci: w.ci, val: zero(ch.ti)})
			m.ready(w.g)
		}
	}
	for _, w := range n.sendq {
		if w.episode == w.g.episode {
			m.setWake(w.g, &wakeRes{ci: w.ci, closed: true})
			m.ready(w.g)
		}
	}
	n.recvq, n.sendq, n.closed = nil, nil, true
	m.setChan(ch, n)
}

func (m *Machine) throwPlain(msg string) { m.throwRT(msg) }

// waitOn blocks the running goroutine until wakeAll(key).
func (m *Machine) waitOn(key any) {
	g := m.curG()
	old := m.waiting[key]
	if m.waiting == nil {
		m.waiting = map[any][]*gor{}
	}
	m.waiting[key] = append(old[:len(old):len(old)], g)
	m.onUndo(func() { m.waiting[key] = old })
	m.blocked()
}

func (m *Machine) wakeAll(key any) {
	if q := m.waiting[key]; len(q) > 0 {
		m.waiting[key] = nil
		m.onUndo(func() { m.waiting[key] = q })
		m.ready(q...)
	}
}

func (m *Machine) setLock(p *Value, n int) {
	if m.locks == nil {
		m.locks = map[*Value]int{}
	}
	old := m.locks[p]
	m.locks[p] = n
	m.onUndo(func() { m.locks[p] = old })
}

// lockOp keeps the state of a mutex: -1 locked, n > 0 readers.
func (m *Machine) lockOp(p *Value, op string) bool {
	if m.noJournal > 0 {
		return true
	}
	n := m.locks[p]
	switch op {
	case "Lock", "TryLock":
		if n != 0 {
			if op == "TryLock" {
				return false
			}
			m.waitOn(p)
		}
		m.setLock(p, -1)
	case "RLock", "TryRLock":
		if n < 0 {
			if op == "TryRLock" {
				return false
			}
			m.waitOn(p)
		}
		m.setLock(p, n+1)
	case "Unlock":
		if n != -1 {
			panic(endSig{endViolation, "panic: fatal error: unlock of unlocked mutex at " + m.repoWhere()})
		}
		m.setLock(p, 0)
		m.wakeAll(p)
	case "RUnlock":
		if n <= 0 {
			panic(endSig{endViolation, "panic: fatal error: RUnlock of unlocked RWMutex at " + m.repoWhere()})
		}
		m.setLock(p, n-1)
		m.wakeAll(p)
	}
	return true
}

func (m *Machine) chanOf(v Value) *Chan {
	c, ok := v.P.(*Chan)
	if !ok && v.P != nil {
		m.unsupported("channel %T", v.P)
	}
	return c
}

func init() {
	wg := func(f func(m *Machine, p *Value, n int64)) Intrinsic {
		return func(m *Machine, fn *Fn, a []Value) Value {
			p, _ := a[0].P.(*Value)
			if p == nil {
				m.nilDeref()
			}
			d := int64(0)
			if len(a) > 1 {
				d = int64(m.conc(a[1]))
			}
			f(m, p, d)
			return Value{}
		}
	}
	add := func(m *Machine, p *Value, d int64) {
		if m.wgs == nil {
			m.wgs = map[*Value]int64{}
		}
		old := m.wgs[p]
		m.wgs[p] = old + d
		m.onUndo(func() { m.wgs[p] = old })
		if old+d < 0 {
			m.throwPlain("sync: negative WaitGroup counter")
		}
		if old+d == 0 {
			m.wakeAll(p)
		}
	}
	reg(wg(add), "(*sync.WaitGroup).Add")
	reg(wg(func(m *Machine, p *Value, _ int64) { add(m, p, -1) }), "(*sync.WaitGroup).Done")
	reg(wg(func(m *Machine, p *Value, _ int64) {
		if m.wgs[p] > 0 {
			m.waitOn(p)
		}
	}), "(*sync.WaitGroup).Wait")

	reg(func(m *Machine, fn *Fn, a []Value) Value { // let the others go first
		if m.noJournal > 0 || m.nestedDepth > 0 || len(m.runq) == 0 {
			return Value{}
		}
		fr := m.fr.clone()
		fr.pc++
		g := m.park(fr)
		m.ready(g)
		panic(switchSig{})
	}, "runtime.Gosched")

	// coroutines (iter.Pull): the coro's cell holds the goroutine that waits in it
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		if m.noJournal > 0 || m.nestedDepth > 0 {
			m.unsupported("coroutine during initialisation")
		}
		f := a[0].P.(*Func)
		c := new(Value)
		g := m.newG(f.fn, f.bindings, []Value{{P: c}})
		*c = Value{P: g}
		if m.coroOf == nil {
			m.coroOf = map[*gor]*Value{}
		}
		m.coroOf[g] = c
		return Value{P: c}
	}, "iter.newcoro")
	reg(func(m *Machine, fn *Fn, a []Value) Value {
		c := a[0].P.(*Value)
		g, _ := c.P.(*gor)
		if g == nil {
			m.throwPlain("coroswitch on exited coro")
		}
		fr := m.fr.clone()
		fr.pc++
		m.store(c, Value{P: m.park(fr)})
		m.resumeTo = g
		panic(switchSig{})
	}, "iter.coroswitch")
}

// switchSig ends an instruction that completed by switching goroutines.
type switchSig struct{}

func (m *Machine) afterSwitch() {
	if m.curDefer != nil {
		m.unsupported("deferred goroutine switch")
	}
	m.ipos, m.ilog = 0, m.ilog[:0]
	if g := m.resumeTo; g != nil {
		m.resumeTo = nil
		m.resume(g)
		return
	}
	m.switchNext()
}

var _ *ssa.Go
