package h

import (
	"strings"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// lookupHeader is what a header text says about a name.
func lookupHeader(text, name string) (string, bool) {
	for _, l := range strings.Split(text, "\n") {
		i := strings.Index(l, ": ")
		if i >= 0 && strings.TrimSpace(l[:i]) == name {
			return strings.TrimSpace(l[i+2:]), true
		}
	}
	return "", false
}

// c20check compares a catalogue's header fields with the current header text.
func c20check(f *translator.File, text string, has bool, names ...string) {
	for _, n := range names {
		got, ok := f.GetHeader(n)
		want, wok := "", false
		if has {
			want, wok = lookupHeader(text, n)
		}
		sym.Assert(ok == wok, "field present or not")
		sym.Assert(got == want, "field value")
		sym.ObserveStr("value", got)
	}
	want := ""
	if has {
		want, _ = lookupHeader(text, "Language")
	}
	sym.Assert(f.Lang() == want, "language")
}

// H_C20_lines: header lines with arbitrary characters.
func H_C20_lines() {
	max := 1
	if sym.Thorough() {
		max = 2
	}
	a, b := sym.StringIn(sym.Choose(max+1), "a: \t-\xe9"), sym.StringIn(sym.Choose(max+2), "v: \t;é\r")
	text := ""
	switch sym.Choose(6) {
	case 0:
		text = "X" + a + ": " + b + "\nY: z"
	case 1:
		text = a + "X: v" + b + "\nX: second\n"
	case 2:
		text = "\n" + a + ":" + b + "\nX: " + b
	case 3:
		text = "Language: " + b + "\nLanguage" + a + ": fr\n"
	case 4:
		text = "X:" + a + b + "\n\nX: w"
	case 5:
		text = a + b
	}
	f := new(translator.File)
	f.AddEntry(&translator.Entry{MsgStr: text})
	c20check(f, text, true, "X", "Y", "", "a", "X"+strings.TrimSpace(a), "Language")
}

// H_C20_bytes: a value or a name of arbitrary bytes.
func H_C20_bytes() {
	max := 1
	if sym.Thorough() {
		max = 2
	}
	s := sym.String(1 + sym.Choose(max))
	text := "Language: " + s + "\nX: y\n"
	if sym.Choose(2) == 1 {
		text = s + ": v\nLanguage: l\n"
	}
	f := new(translator.File)
	f.AddEntry(&translator.Entry{MsgStr: text})
	c20check(f, text, true, "X", "Language")
}

type c20header struct {
	text  string
	forms int // 0: none, 1: always the first, 2: n != 1
}

// H_C20_history: headers and messages added, replaced and queried in any order.
func H_C20_history() {
	v := sym.StringIn(1, "vw")
	hs := []c20header{
		{"Language: zh_CN\nX: one\nPlural-Forms: nplurals=2; plural=n != 1;\n", 2},
		{"X: " + v + "\nPlural-Forms: nplurals=1; plural=0;\nLanguage: fr\n", 1},
		{"Y: only\n", 0},
		{"", 0},
		{"language: fr\nx-long: v\nx: w\nplural-forms: nplurals=1; plural=0;\n", 0},
	}
	k := 4
	if sym.Thorough() {
		k = 6
	}
	f := new(translator.File)
	cur, has := c20header{}, false
	n := sym.Int64()
	msgs := false
	query := func() {
		c20check(f, cur.text, has, "X", "Y", "Language", "Plural-Forms", "Z", "x", "X-Long", "x-long", "LANGUAGE", "plural-forms", "PLURAL-FORMS")
		got := f.XN64("", "a", "as", n)
		switch {
		case !msgs || cur.forms == 0:
			sym.Assert(fallback(got, "a", "as", n, ""), "plural rule without header field")
		case cur.forms == 1:
			sym.Assert(got == "A0", "plural rule of the header")
		default:
			sym.Assert(sym.Or(sym.And(n == 1, got == "A0"), sym.And(n != 1, got == "A1")), "plural rule of the header")
		}
	}
	for i := 0; i < k; i++ {
		switch op := sym.Choose(len(hs) + 3); op {
		case len(hs):
			f.AddEntry(&translator.Entry{MsgID: "a", MsgID2: "as", IsPlural: true, MsgStrN: []string{"A0", "A1"}})
			msgs = true
		case len(hs) + 1: // not a header: it has a context
			f.AddEntry(&translator.Entry{MsgCtxt: "c", MsgStr: "Language: de\nX: other\nPlural-Forms: nplurals=1; plural=0;\n"})
		case len(hs) + 2:
			query()
		default:
			cur, has = hs[op], true
			f.AddEntry(&translator.Entry{MsgStr: cur.text})
		}
	}
	query()
	query()
}

// H_C20_text: the same fields from PO text, with the header anywhere in it.
func H_C20_text() {
	v := sym.StringIn(sym.Choose(3), "v :\t")
	head := "msgid \"\"\nmsgstr \"\"\n\"Language: zh_CN\\n\"\n\"X: " + v + "\\n\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n"
	body := "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"A0\"\nmsgstr[1] \"A1\"\n"
	text := head + body
	switch sym.Choose(3) {
	case 1:
		text = body + head
	case 2:
		text = "msgid \"\"\nmsgstr \"Language: de\\nX: old\\nY: old\\n\"\n" + body + head
	}
	f, err := translator.ReadPo([]byte(text))
	if err != nil {
		sym.Fail("well-formed PO text refused")
		return
	}
	c20check(f, "Language: zh_CN\nX: "+v+"\n", true, "X", "Y", "Language")
	n := sym.Int64()
	got := f.XN64("", "a", "as", n)
	sym.Assert(sym.Or(sym.And(n == 1, got == "A0"), sym.And(n != 1, got == "A1")), "plural rule of the header")
}

// H_C20_many: headers of many fields, long values and repeated names, replaced again.
func H_C20_many() {
	k := []int{9, 16, 40}[sym.Choose(3)]
	v := sym.StringIn(1, "vw:")
	f := new(translator.File)
	for round := 0; round < 3; round++ {
		text := ""
		for i := 0; i < k; i++ {
			text += "X-" + string([]byte{'A' + byte(i%26)}) + ": " + v + itoa(i) + strings.Repeat(" long", i*round) + "\n"
		}
		text += "Language: l" + itoa(round) + v + "\n"
		names := []string{"X-A", "X-E", "X-Z", "Language", "X-I", "X", "X-a"}
		f.AddEntry(&translator.Entry{MsgStr: text})
		c20check(f, text, true, names...)
		f.AddEntry(&translator.Entry{MsgID: "m" + itoa(round), MsgStr: "X-A: other"})
		c20check(f, text, true, names...)
		k -= 3
	}
}

// H_C20_words: texts of the code as names, values and lines.
func H_C20_words() {
	w := sym.Word("translator", "any", 80)
	text := ""
	switch sym.Choose(5) {
	case 0:
		text = w + ": v\nX: y\nLanguage: l\n"
	case 1:
		text = "Language: l\nX: " + w + "\nY: z\n"
	case 2:
		text = "Language: " + w + "\nX: y"
	case 3:
		text = w + "\nX: y\nLanguage: l" + w + "\n"
	case 4:
		text = "Y:" + w + "\nX : y\nLanguage: l\nX: " + w + "\n" + w
	}
	f := new(translator.File)
	f.AddEntry(&translator.Entry{MsgStr: text})
	f.AddEntry(&translator.Entry{MsgID: w + "m", MsgStr: "Language: other\n"})
	c20check(f, text, true, "X", "Y", "Language", w, strings.TrimSpace(w), w+"m")
}

// H_C20_size: values, names and numbers of lines of the sizes the code mentions.
func H_C20_size() {
	k := sym.Size("translator", 1, 5000)
	v := letters(1)
	text := "Language: l\nX: y\n"
	names := []string{"X", "Y", "Language"}
	switch sym.Choose(4) {
	case 0:
		text = "X: " + sized(k, v) + "\n" + text
	case 1:
		text = sized(k, v) + "N: " + v + "\n" + text
		names = append(names, sized(k, v)+"N", sized(k, v))
	case 2:
		s := ""
		for i := 0; i < k%300; i++ {
			s += "N" + itoa(i) + ": " + v + itoa(i) + "\n"
		}
		text = s + text
		names = append(names, "N0", "N"+itoa(k%300-1), "N"+itoa(k%300))
	case 3:
		text = strings.Repeat("\n", k%300) + text + "Y:" + strings.Repeat(" ", k) + v + "\n"
	}
	f := new(translator.File)
	f.AddEntry(&translator.Entry{MsgStr: text})
	c20check(f, text, true, names...)
}
