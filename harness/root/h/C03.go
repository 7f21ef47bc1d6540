package h

import (
	"context"
	"strings"

	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/zzverif/sym"
)

var commonTexts = map[string]bool{}

func init() {
	for _, r := range rules {
		commonTexts[strings.ReplaceAll(r.toks, " ", "")] = true
	}
}

func checkBad(text string) {
	n := sym.Int64()
	r, err := plurals.Eval(context.Background(), text, n)
	toks, lexed := lex(text)
	var want, dev val
	ok := false
	if lexed {
		want, ok = oracle(toks, n, false)
		dev, _ = oracle(toks, n, true)
	}
	if ok {
		if err != nil {
			sym.Assert(sym.Or(want.bad, want.eager, dev.eager), "well-formed expression rejected")
			sym.Assert(sym.Or(want.bad, sym.Not(sym.Or(want.eager, dev.eager))), "[unused operand] a fault in an operand C does not evaluate makes it fail")
		} else {
			sym.Assert(sym.Or(sym.Not(want.bad), sym.Not(dev.bad)), "a faulting expression is not reported")
			sym.ObserveInt("r", r)
		}
		return
	}
	if err != nil {
		return
	}
	k := len(toks)
	if lexed {
		k--
		if commonTexts[strings.ReplaceAll(text, " ", "")] {
			sym.Fail("[blanks inside tokens] a blank inside a token of a well-known rule is accepted")
			return
		}
	}
	if !lexed && k > 0 {
		if _, ok := oracle(toks, n, false); ok {
			sym.Fail("a character outside the language after an expression is accepted")
			return
		}
	}
	for ; k > 0; k-- {
		if _, ok := oracle(toks[:k], n, false); ok {
			sym.Fail("[trailing text] text after a complete expression is ignored")
			return
		}
	}
	sym.Fail("malformed text accepted without an error")
}

// H_C03_text: any text of up to 3 (thorough: 4) bytes.
func H_C03_text() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	checkBad(sym.String(sym.Choose(max + 1)))
}

// H_C03_const: constants of every length around the 64-bit limit.
func H_C03_const() {
	text := []string{"9223372036854775807", "9223372036854775808", "18446744073709551616", "00000000000000000000000000001", "99999999999999999999999", "922337203685477580"}[sym.Choose(6)]
	switch sym.Choose(4) {
	case 0:
		text = text + string(sym.StringIn(1, "0123456789"))
	case 1:
		text = "n+" + text
	case 2:
		text = "n?" + text + ":n"
	}
	checkBad(text)
}

// H_C03_fault: division by zero and negative shifts in every place.
func H_C03_fault() {
	exps := []string{"7/n", "7%n", "n/0", "n%0", "1<<(0-n)", "n>>(0-1)", "7/(n-3)", "n%(n-1)", "(7/n)?1:2", "n?7/n:7/n", "-(7%n)", "~(1<<(2-n))", "n==1?0:1<<(3-n)", "5%(n%2)", "n>3&&7%(n%2)==1", "n>1||7/(n-2)"}
	checkBad(exps[sym.Choose(len(exps))])
}

// H_C03_edit: a published rule with one character deleted, doubled or replaced.
func H_C03_edit() {
	r := rules[sym.Choose(len(rules))]
	text := strings.ReplaceAll(r.toks, " ", "")
	if !sym.Thorough() && len(text) > 20 {
		return
	}
	i := sym.Choose(len(text))
	switch sym.Choose(3) {
	case 0:
		text = text[:i] + text[i+1:]
	case 1:
		text = text[:i+1] + text[i:]
	case 2:
		text = text[:i] + sym.StringIn(1, "n0=?:&|%()! #") + text[i+1:]
	}
	checkBad(text)
}

// H_C03_deep: deep nesting, long operator chains and long texts.
func H_C03_deep() {
	k := 40
	if sym.Thorough() {
		k = 150
	}
	text := ""
	switch sym.Choose(5) {
	case 0:
		text = strings.Repeat("(", k) + "n" + strings.Repeat(")", k)
	case 1:
		text = strings.Repeat("(", k)
	case 2:
		text = "n" + strings.Repeat("+n", k)
	case 3:
		text = strings.Repeat("!", k) + "n"
	case 4:
		text = strings.Repeat("n?1:", k) + "2"
	}
	checkBad(text)
}

// H_C03_gap: any byte before, between, after the parts of an expression.
func H_C03_gap() {
	texts := []string{"n != 1", "n > 10", "0", "( n )", "n ? 1 : 2"}
	k := 4
	if sym.Thorough() {
		k = 5
	}
	toks := strings.Split(texts[sym.Choose(k)], " ")
	i := sym.Choose(len(toks) + 1)
	text := strings.Join(toks[:i], "") + sym.String(1) + strings.Join(toks[i:], "")
	checkBad(text)
}

// H_C03_ops: longer texts over the characters of the language.
func H_C03_ops() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	checkBad(sym.StringIn(sym.Choose(max+1), "n019+-*/%<>=!&|^~?:() \t"))
}

// H_C03_fine: every operator on extreme operands: large shifts and the quotient of
// the smallest integer by -1 are no faults.
func H_C03_fine() {
	operands := []string{"n", "7", "64", "9223372036854775807", "(0-n)", "(0-1)", "(0-9223372036854775807-1)"}
	ops := []string{"<<", ">>", "/", "%", "*", "-", "&", "|"}
	k := len(ops)
	if !sym.Thorough() {
		k = 4
	}
	checkBad(operands[sym.Choose(len(operands))] + ops[sym.Choose(k)] + operands[sym.Choose(len(operands))])
}

// H_C03_words: every text that stands in the code.
func H_C03_words() {
	w := sym.Word("plurals", "any", 80)
	switch sym.Choose(4) {
	case 1:
		w = "n" + w
	case 2:
		w += "n"
	case 3:
		w = "n" + w + "n"
	}
	checkBad(w)
}

// H_C03_size: lengths at the constants of the code.
func H_C03_size() {
	max := 130
	if sym.Thorough() {
		max = 600
	}
	k := sym.Size("plurals", 1, max)
	text := ""
	switch sym.Choose(6) {
	case 0:
		text = strings.Repeat("0", k) + "3"
	case 1:
		text = strings.Repeat("9", k)
	case 2:
		text = "n" + strings.Repeat(" ", k) + "%3"
	case 3:
		text = strings.Repeat("(", k) + "n" + strings.Repeat(")", k)
	case 4:
		text = "n" + strings.Repeat("-1", k)
	case 5:
		text = "n+" + itoa(k)
	}
	checkBad(text)
}
