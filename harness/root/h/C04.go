package h

import (
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

var pluralExprs = []string{
	"0", "n != 1", "n > 1", "n",
	"( n == 1 ) ? 0 : ( n >= 2 && n <= 4 ) ? 1 : 2",
	"n % 10 == 1 && n % 100 != 11 ? 0 : n != 0 ? 1 : 2",
	"n % 100 == 1 ? 0 : n % 100 == 2 ? 1 : n % 100 == 3 || n % 100 == 4 ? 2 : 3",
	"0 - n", "n % 5", "7 / n", "n - 2", "n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 : n % 100 >= 3 && n % 100 <= 10 ? 3 : n % 100 >= 11 ? 4 : 5",
	"4294967296 + n", "n * 2", "( n", "x", "n n",
}

func splitToks(s string) []string {
	toks, _ := lex(s)
	return toks
}

var formTexts = []string{"F0", "F1", "F2", "F3", "F4", "F5"}

// catalogue with a plural entry; shape of the forms chosen.
func pluralFile(np int, expr string, nforms int, empty int, id2 string) *translator.File {
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "Language: xx\nPlural-Forms: nplurals=" + string(rune('0'+np)) + "; plural=" + expr + ";\n"})
	e := &translator.Entry{MsgID: "S%s", MsgID2: id2, IsPlural: true}
	if (np+nforms)%2 == 0 { // not a form of a plural message
		e.MsgStr = "SINGLE"
	}
	for i := 0; i < nforms; i++ {
		s := formTexts[i] + "%s"
		if i == empty {
			s = ""
		}
		e.MsgStrN = append(e.MsgStrN, s)
	}
	file.AddEntry(e)
	return file
}

func checkForm(file translator.Translator, np int, expr string, nforms, empty int, id2 string, withArgs bool) {
	n := sym.Int64()
	want, ok := oracle(splitToks(expr), n, true)
	var got, tail string
	if withArgs {
		tail = "arg"
		got = file.XN64("", "S%s", id2, n, "arg")
	} else {
		tail = "%s"
		got = file.XN64("", "S%s", id2, n)
	}
	id := "S"
	if id2 != "" {
		id2 = id2[:1]
	}
	any := false
	for i := 0; i < nforms; i++ {
		c := sym.And(ok, sym.Not(want.bad), sym.Not(want.eager), want.v == int64(i), i < np, i != empty)
		any = sym.Or(any, c)
		sym.Assert(sym.Implies(c, got == formTexts[i]+tail), "form not selected")
	}
	// known finding C03: a fault in an operand C does not evaluate
	free := sym.And(ok, want.eager, sym.Not(want.bad))
	trail := !ok // text after an expression: known finding C03
	if trail {
		return
	}
	sym.Assert(sym.Or(any, free, fallback(got, id, id2, n, tail)), "wrong fallback")
	sym.ObserveStr(expr, got)
}

// H_C04_forms: every rule, number of forms, hole and count.
func H_C04_forms() {
	expr := pluralExprs[sym.Choose(len(pluralExprs))]
	nps, nfs := []int{0, 2, 3, 6}, []int{0, 1, 2, 3}
	if sym.Thorough() {
		nps, nfs = []int{0, 1, 2, 3, 4, 6, 9}, []int{0, 1, 2, 3, 4, 6}
	}
	np := nps[sym.Choose(len(nps))]
	nforms := nfs[sym.Choose(len(nfs))]
	empty := sym.Choose(nforms+1) - 1
	mode := sym.Choose(3)
	id2 := "P%s"
	if mode == 1 {
		id2 = ""
	}
	file := pluralFile(np, expr, nforms, empty, "P%s")
	checkForm(file, np, expr, nforms, empty, id2, mode == 2)
}

// H_C04_single: entries without plural forms, and no entry.
func H_C04_single() {
	file := new(translator.File)
	switch sym.Choose(3) {
	case 1:
		file.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=2; plural=n!=1;\n"})
	case 2:
		file.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=two; plural=n!=1;\n"})
	}
	kind := sym.Choose(4)
	switch kind {
	case 0: // no entry
	case 1:
		file.AddEntry(&translator.Entry{MsgID: "S", MsgStr: "T"})
	case 2:
		file.AddEntry(&translator.Entry{MsgID: "S"})
	case 3: // only the message in another context
		file.AddEntry(&translator.Entry{MsgCtxt: "c", MsgID: "S", MsgStr: "T"})
	}
	id2 := []string{"P", ""}[sym.Choose(2)]
	n := sym.Int64()
	var tor t.Translator = file
	if kind == 0 && sym.Choose(2) == 1 {
		tor = t.NoopTranslator()
	}
	got := tor.XN64("", "S", id2, n)
	sym.ObserveStr("got", got)
	switch kind {
	case 1:
		sym.Assert(got == "T", "a message translated without plural forms returns its single translation")
	case 2:
		sym.Assert(sym.Or(got == "S", fallback(got, "S", id2, n, "")), "untranslated message")
	default:
		sym.Assert(fallback(got, "S", id2, n, ""), "wrong fallback for a missing message")
	}
}

// H_C04_noheader: a plural entry in a catalogue without usable header.
func H_C04_noheader() {
	file := new(translator.File)
	h := []string{"", "Language: xx\n", "Plural-Forms: \n", "Plural-Forms: nplurals=2;\n", "Plural-Forms: plural=0;\n", "Plural-Forms: nplurals=; plural=0;\n", "Plural-Forms: nplurals=2; plural=;\n"}[sym.Choose(7)]
	if h != "" {
		file.AddEntry(&translator.Entry{MsgStr: h})
	}
	file.AddEntry(&translator.Entry{MsgID: "S", MsgID2: "P", IsPlural: true, MsgStrN: []string{"F0", "F1"}})
	id2 := []string{"P", ""}[sym.Choose(2)]
	n := sym.Int64()
	got := file.XN64("", "S", id2, n)
	sym.ObserveStr("got", got)
	sym.Assert(fallback(got, "S", id2, n, ""), "a catalogue without rule answers with the source text")
}

// H_C04_header: every spelling of the Plural-Forms header, any number of forms.
func H_C04_header() {
	forms := []string{
		"nplurals=@; plural=#;",
		"nplurals=@;plural=#;",
		"nplurals=@; plural=#",
		"nplurals=@; plural=#; ",
		"nplurals = @ ; plural = # ;",
		"  nplurals=@;   plural=#",
		"nplurals=\t@;\tplural=#\t;",
	}
	expr := []string{"n % 12", "n > 1", "n"}[sym.Choose(3)]
	np := 0
	digits := sym.StringIn(1+sym.Choose(2), "0129")
	h := forms[sym.Choose(len(forms))]
	value := ""
	for i := 0; i < len(h); i++ {
		switch h[i] {
		case '@':
			value += digits
		case '#':
			value += expr
		default:
			value += h[i : i+1]
		}
	}
	for i := 0; i < len(digits); i++ {
		np = np*10 + int(digits[i]-'0')
	}
	texts := []string{"F0", "F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "FA", "FB"}
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "Language: xx\nPlural-Forms: " + value + "\nX: y\n"})
	file.AddEntry(&translator.Entry{MsgID: "S", MsgID2: "P", IsPlural: true, MsgStrN: texts})
	n := sym.Int64()
	want, ok := oracle(splitToks(expr), n, true)
	sym.Assert(ok, "rule")
	got := file.XN64("", "S", "P", n)
	any := false
	for i := range texts {
		c := sym.And(want.v == int64(i), i < np)
		any = sym.Or(any, c)
		sym.Assert(sym.Implies(c, got == texts[i]), "form not selected")
	}
	sym.Assert(sym.Or(any, fallback(got, "S", "P", n, "")), "wrong fallback")
	sym.ObserveStr("got", got)
}

// H_C04_size: as many forms as the constants of the code say, one missing, or one
// too many.
func H_C04_size() {
	max := 40
	if sym.Thorough() {
		max = 300
	}
	k := sym.Size("translator", 1, max)
	nf := k + sym.Choose(3) - 1
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=" + itoa(k) + "; plural=n;\n"})
	e := &translator.Entry{MsgID: "S", MsgID2: "P", IsPlural: true}
	for i := 0; i < nf; i++ {
		e.MsgStrN = append(e.MsgStrN, "F"+itoa(i))
	}
	file.AddEntry(e)
	n := sym.Int64()
	got := file.XN64("", "S", "P", n)
	usable := int64(min(k, nf))
	for _, i := range []int{0, 1, k / 2, k - 1, nf - 1} {
		sym.Assert(sym.Implies(sym.And(i >= 0, n == int64(i), n < usable), got == "F"+itoa(i)), "form not selected")
	}
	sym.Assert(sym.Implies(sym.Or(n < 0, n >= usable), fallback(got, "S", "P", n, "")), "wrong fallback")
}

// H_C04_words: texts of the code as ids and forms of plural messages.
func H_C04_words() {
	w := sym.Word("translator", "any", 60)
	if w == "" || strings.Contains(w, "\x04") {
		return
	}
	n := sym.Int64()
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "X-Note: a\nPlural-Forms: nplurals=2; plural=n != 1;\n"})
	ctx, id, id2, f0, f1 := "", "S", "P", "F0", "F1"
	switch sym.Choose(5) {
	case 0:
		ctx = w
	case 1:
		id = w
	case 2:
		id2 = w
	case 3:
		f0 = w
	case 4:
		f1 = w
	}
	file.AddEntry(&translator.Entry{MsgCtxt: ctx, MsgID: id, MsgID2: id2, IsPlural: true, MsgStrN: []string{f0, f1}})
	got := file.XN64(ctx, id, id2, n)
	sym.Assert(sym.Or(sym.And(n == 1, got == f0), sym.And(n != 1, got == f1)), "form not selected")
	sym.Assert(fallback(file.XN64(ctx+"x", id, id2, n), id, id2, n, ""), "wrong fallback")
}
