package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation found symbolically, with the inputs that produce it.
type Violation struct {
	Harness string   `json:"harness"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Where   string   `json:"where"`
	Stack   []string `json:"stack"`
	Values  []uint64 `json:"values"`
	Kinds   []string `json:"kinds"`
	SMT     string   `json:"-"`
}

// Sample is a completed path with one concrete input and its outputs.
type Sample struct {
	Values []uint64
	Kinds  []string
	Obs    []string
	Fails  int
}

// HarnessRun explores one harness with several workers.
type HarnessRun struct {
	p             *Program
	name          string
	fn            *ssa.Function
	thorough      bool
	solverTimeout uint
	stepMax       int64
	allocLimit    int64
	crossEvery    int64
	crossTime     time.Duration
	maxSamples    int
	deadline      time.Time
	workers       int
	repoInit      []*ssa.Package

	mu      sync.Mutex
	cond    *sync.Cond
	queue   [][]int32
	active  int
	stop    bool
	waiting int
	idle    atomic.Int64
	started time.Time

	forks, fastDecisions, asserts, assertQueries atomic.Int64
	paths, infeasible                            atomic.Int64
	steps                                        atomic.Int64
	queries                                      int64
	solverDur                                    time.Duration
	viol                                         map[string][]*Violation
	violCount                                    map[string]int
	inconclusive                                 map[string]int
	covers                                       map[string]int
	samples                                      []*Sample
	incomplete                                   string
	fnCount                                      map[*Fn]uint64
	crossDone, crossBad                          int
	crossMsgs                                    []string
	unexplored                                   int
	pathsBy                                      int64
	maxDepth                                     int
	fatal                                        string
}

func (h *HarnessRun) noteUnknown(where string) {
	h.mu.Lock()
	h.inconclusive["solver timeout: "+where]++
	h.mu.Unlock()
}

func (h *HarnessRun) submit(tr []int32) {
	h.mu.Lock()
	h.queue = append(h.queue, tr)
	h.setIdle()
	h.mu.Unlock()
	h.cond.Signal()
}

func (h *HarnessRun) setIdle() { h.idle.Store(int64(h.waiting - len(h.queue))) }

// nextJob blocks until a job is available; ok=false when exploration is over.
func (h *HarnessRun) nextJob() (tr []int32, ok bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.active--
	for {
		if h.stop || h.fatal != "" {
			h.cond.Broadcast()
			return nil, false
		}
		if len(h.queue) > 0 {
			tr = h.queue[0]
			h.queue = h.queue[1:]
			h.active++
			h.setIdle()
			return tr, true
		}
		if h.active == 0 {
			h.cond.Broadcast()
			return nil, false
		}
		h.waiting++
		h.setIdle()
		h.cond.Wait()
		h.waiting--
		h.setIdle()
	}
}

func (h *HarnessRun) inputValues(m *Machine, model []uint64) ([]uint64, []string) {
	var vs []uint64
	var ks []string
	for _, in := range m.inputs {
		v := in.v
		if in.t != nil {
			v = 0
			if int(in.t.k) < len(model) {
				v = model[in.t.k]
			}
		}
		vs = append(vs, v)
		ks = append(ks, in.kind)
	}
	return vs, ks
}

func (h *HarnessRun) violation(m *Machine, msg string, model []uint64) {
	vs, ks := h.inputValues(m, model)
	kind := msg
	if i := strings.IndexByte(msg, ':'); i > 0 {
		kind = msg[:i]
	}
	v := &Violation{Harness: h.name, Kind: kind, Msg: msg, Where: m.repoWhere(), Stack: m.stack(12), Values: vs, Kinds: ks}
	key := msg
	if kind != "assert" {
		key = msg + " @ " + v.Where
	}
	h.mu.Lock()
	h.violCount[key]++
	if len(h.viol[key]) < 24 && len(h.viol) < 200 {
		h.viol[key] = append(h.viol[key], v)
	}
	h.mu.Unlock()
}

func (h *HarnessRun) cross(m *Machine, extra *Term, r SatResult) {
	// second opinion from an independent solver, for a while
	h.mu.Lock()
	skip := h.crossTime > 20*time.Second || time.Now().Add(5*time.Second).After(m.deadline)
	h.mu.Unlock()
	if skip {
		return
	}
	ts, _ := m.slicePC(extra)
	smt := m.sol.SMT2(append(ts, extra))
	want := map[SatResult]string{Sat: "sat", Unsat: "unsat"}[r]
	if want == "" {
		return
	}
	start := time.Now()
	got := crossCheck("cvc5", []string{"--tlimit=4000"}, smt)
	h.mu.Lock()
	h.crossTime += time.Since(start)
	defer h.mu.Unlock()
	if got == want {
		h.crossDone++
	} else if got == "sat" || got == "unsat" {
		h.crossBad++
		h.crossMsgs = append(h.crossMsgs, got+" vs "+want)
	}
}

func (m *Machine) obsStrings() []string {
	var r []string
	for _, o := range m.obs {
		switch o.kind {
		case "str":
			r = append(r, fmt.Sprintf("%s=%q", o.label, m.evalStr(o.v)))
		case "int":
			r = append(r, fmt.Sprintf("%s=%d", o.label, int64(m.evalVal(o.v))))
		case "bool":
			r = append(r, fmt.Sprintf("%s=%t", o.label, m.evalVal(o.v) != 0))
		}
	}
	return r
}

// reset prepares the machine for a job that starts at the harness entry.
func (m *Machine) reset(forced []int32) {
	m.undoTo(0)
	m.truncPC(0)
	m.cps = nil
	m.ilog, m.ipos = m.ilog[:0], 0
	m.trail = m.trail[:0]
	m.forced = forced
	m.model, m.modelOK = nil, true
	m.inputs, m.obs, m.covers = nil, nil, nil
	m.inMark = 0
	m.steps = 0
	m.mapOrder, m.lockDepth, m.rlockDepth, m.roOn = 0, 0, 0, false
	m.allocLimit = 0
	m.g, m.runq, m.waiting, m.locks, m.wgs, m.coroOf, m.resumeTo, m.curDefer, m.nestedDepth = nil, nil, nil, nil, nil, nil, nil, nil, 0
	m.callDepth = 0
	m.fr, m.base = nil, nil
	m.baseDone, m.pushed = false, false
}

// work runs jobs until there are none left.
func (h *HarnessRun) work(m *Machine) {
	defer func() {
		if r := recover(); r != nil {
			h.mu.Lock()
			h.fatal = fmt.Sprintf("engine failure: %v at %s\n%s", r, m.where(), debug.Stack())
			h.mu.Unlock()
			h.cond.Broadcast()
		}
	}()
	for _, pk := range h.repoInit {
		m.initPkg(pk)
	}
	for {
		tr, ok := h.nextJob()
		if !ok {
			break
		}
		m.reset(tr)
		m.push(h.p.fnOf(h.fn), nil, nil)
		m.fr.base = true
		m.base = m.fr
		for {
			end := m.runPath()
			if end == endDeadline || h.stopped() {
				h.mu.Lock()
				h.stop = true
				h.unexplored += len(m.cps) + 1
				if h.incomplete == "" {
					h.incomplete = "time budget reached"
				}
				h.mu.Unlock()
				h.cond.Broadcast()
				break
			}
			if len(m.trail) < len(m.forced) {
				// ended inside the forced prefix: nothing below
			}
			m.forced = nil
			if !m.backtrack() {
				break
			}
		}
	}
	h.mu.Lock()
	h.queries += m.sol.queries
	h.solverDur += m.sol.dur
	for id, n := range m.fnSeen {
		if n > 0 {
			h.p.mu.Lock()
			fn := h.p.fnList[id]
			h.p.mu.Unlock()
			h.fnCount[fn] += uint64(n)
		}
	}
	h.mu.Unlock()
	m.sol.Close()
}

func (h *HarnessRun) stopped() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.stop || h.fatal != ""
}

// runPath runs to the end of the current path.
func (m *Machine) runPath() (kind endKind) {
	h := m.h
	start := m.steps
	defer func() {
		h.steps.Add(m.steps - start)
		if r := recover(); r != nil {
			e, ok := r.(endSig)
			if !ok { // the engine itself failed: this path is left undecided
				e = endSig{endUnsupported, fmt.Sprintf("engine failure: %v", r)}
				if os.Getenv("GOSYM_DEBUG") != "" {
					debug.PrintStack()
				}
				m.noJournal, m.pushed, m.nestedDepth = 0, false, 0
			}
			kind = e.kind
			func() {
				defer func() {
					if r2 := recover(); r2 != nil {
						e2, ok := r2.(endSig)
						if !ok {
							e2 = endSig{endUnsupported, fmt.Sprintf("engine failure: %v", r2)}
						}
						kind = e2.kind
						e = e2
					}
				}()
				switch e.kind {
				case endViolation:
					m.ensureModel()
					h.violation(m, e.msg, m.model)
				case endSteps:
					m.ensureModel()
					h.violation(m, "hang: more than "+fmt.Sprint(m.stepMax)+" steps", m.model)
				}
			}()
			h.mu.Lock()
			switch e.kind {
			case endInfeasible:
				h.infeasible.Add(1)
			case endUnsupported:
				h.inconclusive["unsupported: "+e.msg+" @ "+m.where()]++
			case endUnknown:
				h.inconclusive["solver: "+e.msg]++
			}
			h.mu.Unlock()
		}
	}()
	m.run()
	h.paths.Add(1)
	m.finishPath()
	return endDone
}

func (m *Machine) finishPath() {
	h := m.h
	n := h.paths.Load()
	h.mu.Lock()
	for _, c := range m.covers {
		h.covers[c]++
	}
	if d := len(m.pc); d > h.maxDepth {
		h.maxDepth = d
	}
	want := len(h.samples) < h.maxSamples && (n < 20 || n&(n-1) == 0 || n%97 == 0)
	h.mu.Unlock()
	if want {
		m.ensureModel()
		vs, ks := h.inputValues(m, m.model)
		s := &Sample{Values: vs, Kinds: ks, Obs: m.obsStrings()}
		h.mu.Lock()
		h.samples = append(h.samples, s)
		h.mu.Unlock()
	}
}

// explore runs the harness to completion or to the deadline.
func (h *HarnessRun) explore() {
	h.cond = sync.NewCond(&h.mu)
	h.viol = map[string][]*Violation{}
	h.violCount = map[string]int{}
	h.inconclusive = map[string]int{}
	h.covers = map[string]int{}
	h.fnCount = map[*Fn]uint64{}
	h.queue = [][]int32{nil}
	h.active = h.workers
	h.started = time.Now()
	var wg sync.WaitGroup
	for i := 0; i < h.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := NewMachine(h.p, h)
			m.deadline = h.deadline
			h.work(m)
		}()
	}
	wg.Wait()
	h.mu.Lock()
	h.unexplored += len(h.queue)
	h.mu.Unlock()
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
