package main

/*
#cgo LDFLAGS: -lz3
#include <stdlib.h>
#include <z3.h>

static int gs_err = 0;
static void gs_handler(Z3_context c, Z3_error_code e) { gs_err = (int)e; }
static Z3_context gs_ctx(void) {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z3_context c = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(c, gs_handler);
  return c;
}
static int gs_geterr(void) { int e = gs_err; gs_err = 0; return e; }
static Z3_solver gs_oneshot(Z3_context c, Z3_tactic t, unsigned timeout) {
  Z3_solver s = Z3_mk_solver_from_tactic(c, t);
  Z3_solver_inc_ref(c, s);
  Z3_params p = Z3_mk_params(c);
  Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout);
  Z3_solver_set_params(c, s, p);
  Z3_params_dec_ref(c, p);
  return s;
}
static Z3_solver gs_simple(Z3_context c, unsigned timeout) {
  Z3_solver s = Z3_mk_simple_solver(c);
  Z3_solver_inc_ref(c, s);
  Z3_params p = Z3_mk_params(c);
  Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout);
  Z3_solver_set_params(c, s, p);
  Z3_params_dec_ref(c, p);
  return s;
}
static int gs_int_val(Z3_context c, Z3_model m, char *name, unsigned w, long long *out) {
  Z3_ast r = 0;
  Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, name), w == 0 ? Z3_mk_bool_sort(c) : Z3_mk_int_sort(c));
  if (!Z3_model_eval(c, m, v, 1, &r)) return 0;
  if (w == 0) { *out = Z3_get_bool_value(c, r) == Z3_L_TRUE; return 1; }
  int64_t x = 0; uint64_t u = 0;
  if (Z3_get_numeral_int64(c, r, &x)) { *out = x; return 1; }
  if (Z3_get_numeral_uint64(c, r, &u)) { *out = (long long)u; return 1; }
  return 0;
}
static Z3_tactic gs_tactic(Z3_context c) {
  Z3_tactic t = Z3_mk_tactic(c, "qfbv");
  Z3_tactic_inc_ref(c, t);
  return t;
}
static Z3_ast gs_var(Z3_context c, int idx, unsigned w) {
  Z3_sort s = w == 0 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, w);
  Z3_ast a = Z3_mk_const(c, Z3_mk_int_symbol(c, idx), s);
  Z3_inc_ref(c, a);
  return a;
}
static Z3_ast gs_const(Z3_context c, unsigned w, unsigned long long v) {
  Z3_ast a;
  if (w == 0) a = v ? Z3_mk_true(c) : Z3_mk_false(c);
  else a = Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w));
  Z3_inc_ref(c, a);
  return a;
}
static Z3_ast gs_op(Z3_context c, int op, Z3_ast x, Z3_ast y, Z3_ast z, unsigned p, unsigned q) {
  Z3_ast a = 0; Z3_ast v[2]; v[0] = x; v[1] = y;
  switch (op) {
  case 2: a = Z3_mk_not(c, x); break;
  case 3: a = Z3_mk_and(c, 2, v); break;
  case 4: a = Z3_mk_or(c, 2, v); break;
  case 5: a = Z3_mk_ite(c, x, y, z); break;
  case 6: a = Z3_mk_eq(c, x, y); break;
  case 7: a = Z3_mk_bvult(c, x, y); break;
  case 8: a = Z3_mk_bvule(c, x, y); break;
  case 9: a = Z3_mk_bvslt(c, x, y); break;
  case 10: a = Z3_mk_bvsle(c, x, y); break;
  case 11: a = Z3_mk_bvadd(c, x, y); break;
  case 12: a = Z3_mk_bvsub(c, x, y); break;
  case 13: a = Z3_mk_bvmul(c, x, y); break;
  case 14: a = Z3_mk_bvudiv(c, x, y); break;
  case 15: a = Z3_mk_bvurem(c, x, y); break;
  case 16: a = Z3_mk_bvsdiv(c, x, y); break;
  case 17: a = Z3_mk_bvsrem(c, x, y); break;
  case 18: a = Z3_mk_bvand(c, x, y); break;
  case 19: a = Z3_mk_bvor(c, x, y); break;
  case 20: a = Z3_mk_bvxor(c, x, y); break;
  case 21: a = Z3_mk_bvshl(c, x, y); break;
  case 22: a = Z3_mk_bvlshr(c, x, y); break;
  case 23: a = Z3_mk_bvashr(c, x, y); break;
  case 24: a = Z3_mk_zero_ext(c, p, x); break;
  case 25: a = Z3_mk_sign_ext(c, p, x); break;
  case 26: a = Z3_mk_extract(c, p, q, x); break;
  }
  if (a) Z3_inc_ref(c, a);
  return a;
}
static int gs_model_u64(Z3_context c, Z3_model m, Z3_ast var, unsigned w, unsigned long long *out) {
  Z3_ast r = 0;
  if (!Z3_model_eval(c, m, var, 1, &r)) return 0;
  if (w == 0) { *out = Z3_get_bool_value(c, r) == Z3_L_TRUE; return 1; }
  uint64_t v = 0;
  if (!Z3_get_numeral_uint64(c, r, &v)) return 0;
  *out = v;
  return 1;
}
*/
import "C"
import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
	"unsafe"
)

// SatResult of a solver call.
type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver wraps a Z3 context; every query is a fresh (non-incremental) solver.
type Solver struct {
	ctx      C.Z3_context
	tac      C.Z3_tactic
	tc       *TermCtx
	cache    []C.Z3_ast
	timeout  uint
	queries  int64
	hits     int64
	dur      time.Duration
	unknowns int64
	guessed  int64
	lia      int64
	fresh    map[[2]int]*Term
	memo     map[string]*memoRes
}

type memoRes struct {
	r SatResult
	m []uint64
}

func NewSolver(tc *TermCtx, timeoutMs uint) *Solver {
	c := C.gs_ctx()
	return &Solver{ctx: c, tac: C.gs_tactic(c), tc: tc, timeout: timeoutMs, memo: map[string]*memoRes{}}
}

func (s *Solver) ast(t *Term) C.Z3_ast {
	for int(t.id) >= len(s.cache) {
		s.cache = append(s.cache, make([]C.Z3_ast, len(s.tc.all)-len(s.cache)+256)...)
	}
	if a := s.cache[t.id]; a != nil {
		return a
	}
	var r C.Z3_ast
	switch t.op {
	case OpConst:
		r = C.gs_const(s.ctx, C.uint(t.w), C.ulonglong(t.k))
	case OpVar:
		r = C.gs_var(s.ctx, C.int(t.k), C.uint(t.w))
	default:
		var x, y, z C.Z3_ast
		if t.a != nil {
			x = s.ast(t.a)
		}
		if t.b != nil {
			y = s.ast(t.b)
		}
		if t.c != nil {
			z = s.ast(t.c)
		}
		var p, q C.uint
		switch t.op {
		case OpZext, OpSext:
			p = C.uint(t.w - t.a.w)
		case OpExtract:
			p, q = C.uint(uint8(t.k)+t.w-1), C.uint(t.k)
		}
		r = C.gs_op(s.ctx, C.int(t.op), x, y, z, p, q)
	}
	if e := C.gs_geterr(); e != 0 || r == nil {
		panic(fmt.Sprintf("z3 error %d building %v", e, t))
	}
	if int(t.id) >= len(s.cache) {
		s.cache = append(s.cache, make([]C.Z3_ast, int(t.id)-len(s.cache)+256)...)
	}
	s.cache[t.id] = r
	return r
}

// CheckSet decides the conjunction of ts; on Sat it returns values of all variables.
func (s *Solver) CheckSet(ts []*Term) (SatResult, []uint64) {
	key := make([]byte, 0, len(ts)*4)
	for _, t := range ts {
		key = append(key, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	if r, ok := s.memo[string(key)]; ok {
		s.hits++
		return r.r, r.m
	}
	r, m := s.checkSet(ts)
	if r != Unknown {
		s.memo[string(key)] = &memoRes{r, m}
	}
	return r, m
}

func (s *Solver) checkSet(ts []*Term) (r SatResult, m []uint64) {
	t0 := time.Now()
	s.queries++
	heavy := false
	seen := map[*Term]bool{}
	for _, t := range ts {
		if heavyTerm(t, seen) {
			heavy = true
			break
		}
	}
	if heavy {
		r, m = s.checkHeavy(ts)
	} else {
		r, m = s.z3set(ts, s.timeout)
	}
	s.dur += time.Since(t0)
	if r == Unknown {
		s.unknowns++
	}
	return
}

// z3text decides SMT-LIB text over integers (variables are named v<index>).
func (s *Solver) z3text(txt string, timeout uint) (SatResult, []uint64) {
	sol := C.gs_simple(s.ctx, C.uint(timeout))
	defer C.Z3_solver_dec_ref(s.ctx, sol)
	cs := C.CString(txt)
	defer C.free(unsafe.Pointer(cs))
	C.Z3_solver_from_string(s.ctx, sol, cs)
	if e := C.gs_geterr(); e != 0 {
		panic(fmt.Sprintf("z3 error %d parsing %s", e, txt))
	}
	r := C.Z3_solver_check(s.ctx, sol)
	if e := C.gs_geterr(); e != 0 {
		return Unknown, nil
	}
	switch r {
	case C.Z3_L_FALSE:
		return Unsat, nil
	case C.Z3_L_TRUE:
		m := C.Z3_solver_get_model(s.ctx, sol)
		C.Z3_model_inc_ref(s.ctx, m)
		defer C.Z3_model_dec_ref(s.ctx, m)
		vals := make([]uint64, len(s.tc.vars))
		for i, v := range s.tc.vars {
			n := C.CString(fmt.Sprintf("v%d", v.k))
			var out C.longlong
			ok := C.gs_int_val(s.ctx, m, n, C.uint(v.w), &out)
			C.free(unsafe.Pointer(n))
			if ok == 0 {
				C.gs_geterr()
				continue
			}
			vals[i] = uint64(out) & mask(v.w)
		}
		return Sat, vals
	}
	return Unknown, nil
}

func (s *Solver) z3set(ts []*Term, timeout uint) (SatResult, []uint64) {
	t0 := time.Now()
	sol := C.gs_oneshot(s.ctx, s.tac, C.uint(timeout))
	defer C.Z3_solver_dec_ref(s.ctx, sol)
	for _, t := range ts {
		C.Z3_solver_assert(s.ctx, sol, s.ast(t))
	}
	if e := C.gs_geterr(); e != 0 {
		panic(fmt.Sprintf("z3 error %d asserting", e))
	}
	r := C.Z3_solver_check(s.ctx, sol)
	if d := os.Getenv("GOSYM_SLOW"); d != "" && time.Since(t0) > time.Second {
		f, _ := os.CreateTemp(d, "q*.smt2")
		f.WriteString("(set-logic QF_BV)\n" + C.GoString(C.Z3_solver_to_string(s.ctx, sol)) + "\n(check-sat)\n")
		f.Close()
	}
	if e := C.gs_geterr(); e != 0 {
		return Unknown, nil
	}
	switch r {
	case C.Z3_L_FALSE:
		return Unsat, nil
	case C.Z3_L_TRUE:
		m := C.Z3_solver_get_model(s.ctx, sol)
		C.Z3_model_inc_ref(s.ctx, m)
		defer C.Z3_model_dec_ref(s.ctx, m)
		vals := make([]uint64, len(s.tc.vars))
		for i, v := range s.tc.vars {
			if int(v.id) >= len(s.cache) || s.cache[v.id] == nil {
				continue
			}
			var out C.ulonglong
			if C.gs_model_u64(s.ctx, m, s.cache[v.id], C.uint(v.w), &out) == 0 {
				C.gs_geterr()
				return Unknown, nil
			}
			vals[i] = uint64(out)
		}
		return Sat, vals
	}
	return Unknown, nil
}

// SMT2 renders a conjunction for another solver.
func (s *Solver) SMT2(ts []*Term) string {
	sol := C.gs_oneshot(s.ctx, s.tac, C.uint(s.timeout))
	defer C.Z3_solver_dec_ref(s.ctx, sol)
	for _, t := range ts {
		C.Z3_solver_assert(s.ctx, sol, s.ast(t))
	}
	return C.GoString(C.Z3_solver_to_string(s.ctx, sol))
}

func (s *Solver) Close() {
	C.Z3_del_context(s.ctx)
}

var _ = unsafe.Pointer(nil)

// crossCheck runs another solver on an SMT-LIB text and returns its verdict.
func crossCheck(bin string, args []string, smt string) string {
	f, err := os.CreateTemp("", "gosym*.smt2")
	if err != nil {
		return "error"
	}
	defer os.Remove(f.Name())
	f.WriteString("(set-logic QF_BV)\n" + smt + "\n(check-sat)\n")
	f.Close()
	out, _ := exec.Command(bin, append(args, f.Name())...).CombinedOutput()
	return strings.TrimSpace(string(out))
}
