package h

import (
	"context"
	"strings"

	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/zzverif/sym"
)

// gnuSpacing renders the tokens the way the manual prints them.
func gnuSpacing(toks []string) string {
	var b strings.Builder
	for i, t := range toks {
		switch t {
		case "?", ":", "&&", "||":
			b.WriteString(" " + t + " ")
		case "!=", ">":
			if len(toks) == 3 {
				b.WriteString(" " + t + " ")
			} else {
				b.WriteString(t)
			}
		default:
			_ = i
			b.WriteString(t)
		}
	}
	return b.String()
}

func checkRule(r rule, text string, n int64) {
	got, err := plurals.Eval(context.Background(), text, n)
	sym.Assert(err == nil, "rule rejected: "+text)
	if err == nil {
		sym.Assert(got == r.form(n), "form: "+text)
		sym.ObserveInt(text, got)
	}
}

// H_C02_rules: every published rule in uniform spacings, recognised or wrapped so that it is parsed.
func H_C02_rules() {
	r := rules[sym.Choose(len(rules))]
	toks := strings.Split(r.toks, " ")
	text := ""
	switch sym.Choose(8) {
	case 0:
		text = strings.Join(toks, "")
	case 1:
		text = strings.Join(toks, " ")
	case 2:
		text = gnuSpacing(toks)
	case 3:
		text = strings.Join(toks, "\t")
	case 4:
		text = "(" + strings.Join(toks, "") + ")"
	case 5:
		text = "  " + strings.Join(toks, "  ") + " "
	case 6:
		text = "+(" + gnuSpacing(toks) + ")"
	case 7:
		text = " \t" + strings.Join(toks, " \t") + "\t"
	}
	checkRule(r, text, sym.Int64())
}

// H_C02_gap: one odd gap (two blanks or a tab) at any place of a rule.
func H_C02_gap() {
	r := rules[sym.Choose(len(rules))]
	toks := strings.Split(r.toks, " ")
	at := sym.Choose(len(toks) + 1)
	odd := []string{"\t", " ", " \t "}[sym.Choose(3)]
	text := ""
	for i, t := range toks {
		if i == at {
			text += odd
		}
		text += t
	}
	if at == len(toks) {
		text += odd
	}
	checkRule(r, text, sym.Int64())
}
