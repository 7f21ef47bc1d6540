package h

import (
	"context"
	"strings"

	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/zzverif/sym"
)

// An independent reading of plural expressions with C's rules.

var binOps = []string{"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"}
var preOps = []string{"+", "-", "~", "!", "++", "--"}

var cPrec = map[string]int{"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7,
	"==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}

// val is a value and whether computing it faults: bad when C's evaluation
// faults, eager when computing every operand (taken or not) faults.
type val struct {
	v          int64
	bad, eager bool
}

type cparser struct {
	t  []string
	i  int
	n  int64
	ok bool
	// known deviations of the library (known_findings.json): < and > bind
	// tighter than <= and >=; ^ is computed as &.
	known bool
}

func (p *cparser) prec(op string) int {
	x := cPrec[op]
	if p.known && (op == "<" || op == ">") {
		return 2*x + 1
	}
	return 2 * x
}

func (p *cparser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}

func b2i(b bool) int64 { return sym.IteInt(b, 1, 0) }

// expr parses a conditional expression.
func (p *cparser) expr() val {
	c := p.binary(1)
	if p.peek() != "?" {
		return c
	}
	p.i++
	l := p.expr()
	if p.peek() != ":" {
		p.ok = false
		return c
	}
	p.i++
	r := p.expr()
	t := c.v != 0
	return val{sym.IteInt(t, l.v, r.v),
		sym.Or(c.bad, sym.And(t, l.bad), sym.And(!t, r.bad)),
		sym.Or(c.eager, l.eager, r.eager)}
}

func (p *cparser) binary(min int) val {
	l := p.unary()
	for {
		op := p.peek()
		pr := p.prec(op)
		if pr == 0 || pr < min {
			return l
		}
		p.i++
		r := p.binary(pr + 1)
		l = p.apply(op, l, r)
	}
}

func (p *cparser) unary() val {
	t := p.peek()
	p.i++
	switch t {
	case "+":
		return p.unary()
	case "-":
		x := p.unary()
		x.v = -x.v
		return x
	case "~":
		x := p.unary()
		x.v = ^x.v
		return x
	case "!":
		x := p.unary()
		x.v = b2i(x.v == 0)
		return x
	case "++":
		x := p.unary()
		x.v++
		return x
	case "--":
		x := p.unary()
		x.v--
		return x
	case "(":
		x := p.expr()
		if p.peek() != ")" {
			p.ok = false
			return x
		}
		p.i++
		return p.postfix(x)
	case "n":
		return p.postfix(val{v: p.n})
	case "":
		p.ok = false
		return val{}
	}
	x := val{}
	for i := 0; i < len(t); i++ {
		d := t[i]
		if d < '0' || d > '9' {
			p.ok = false
			return x
		}
		k := int64(d - '0')
		if x.v > (1<<63-1-k)/10 {
			x.bad, x.eager = true, true
			return p.postfix(x)
		}
		x.v = x.v*10 + k
	}
	return p.postfix(x)
}

func (p *cparser) postfix(x val) val {
	for {
		switch p.peek() {
		case "++":
			x.v++
		case "--":
			x.v--
		default:
			return x
		}
		p.i++
	}
}

func (p *cparser) apply(op string, l, r val) val {
	bad, eager := sym.Or(l.bad, r.bad), sym.Or(l.eager, r.eager)
	v := int64(0)
	switch op {
	case "*":
		v = l.v * r.v
	case "/", "%":
		z := r.v == 0
		bad, eager = sym.Or(bad, z), sym.Or(eager, z)
		d := sym.IteInt(z, 1, r.v)
		if op == "/" {
			v = l.v / d
		} else {
			v = l.v % d
		}
	case "+":
		v = l.v + r.v
	case "-":
		v = l.v - r.v
	case "<<", ">>":
		z := r.v < 0
		bad, eager = sym.Or(bad, z), sym.Or(eager, z)
		d := uint64(sym.IteInt(z, 0, r.v))
		if op == "<<" {
			v = l.v << d
		} else {
			v = l.v >> d
		}
	case "<":
		v = b2i(l.v < r.v)
	case ">":
		v = b2i(l.v > r.v)
	case "<=":
		v = b2i(l.v <= r.v)
	case ">=":
		v = b2i(l.v >= r.v)
	case "==":
		v = b2i(l.v == r.v)
	case "!=":
		v = b2i(l.v != r.v)
	case "&":
		v = l.v & r.v
	case "^":
		v = l.v ^ r.v
		if p.known {
			v = l.v & r.v
		}
	case "|":
		v = l.v | r.v
	case "&&":
		t := l.v != 0
		v = b2i(sym.And(t, r.v != 0))
		bad = sym.Or(l.bad, sym.And(t, r.bad))
	case "||":
		t := l.v != 0
		v = b2i(sym.Or(t, r.v != 0))
		bad = sym.Or(l.bad, sym.And(!t, r.bad))
	}
	return val{v, bad, eager}
}

// oracle reads the tokens; ok is false when they are not an expression.
func oracle(toks []string, n int64, known bool) (val, bool) {
	p := &cparser{t: toks, n: n, ok: true, known: known}
	x := p.expr()
	return x, p.ok && p.i == len(toks)
}

// checkExpr compares plurals.Eval with C's value for every n >= 0.
func checkExpr(toks []string, observe bool) {
	n := sym.Int64()
	sym.Assume(n >= 0)
	checkText(toks, strings.Join(toks, " "), n, observe)
}

func checkText(toks []string, text string, n int64, observe bool) {
	want, ok := oracle(toks, n, false)
	if !ok {
		sym.Fail("harness: not an expression: " + text)
		return
	}
	// the library's documented deviations from C
	dev, _ := oracle(toks, n, true)
	r, err := plurals.Eval(context.Background(), text, n)
	if err != nil {
		sym.Assert(sym.Or(want.bad, want.eager, dev.eager), "well-formed expression rejected: "+text)
		sym.Assert(sym.Or(want.bad, sym.Not(sym.Or(want.eager, dev.eager))), "[unused operand] a fault in an operand C does not evaluate makes it fail: "+text)
		return
	}
	same := sym.And(sym.Not(want.bad), r == want.v)
	sym.Assert(sym.Or(same, sym.And(sym.Not(dev.eager), r == dev.v)), "value: "+text)
	sym.Assert(same, "[precedence or xor deviation] value: "+text)
	if observe {
		sym.ObserveInt(text, r)
	}
}
