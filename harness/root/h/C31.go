package h

import (
	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// c31convert saves a catalogue in a format and reads it back.
func c31convert(f *translator.File, mo bool) *translator.File {
	var g *translator.File
	var err error
	if mo {
		g, err = translator.ReadMo(saveMo(f))
	} else {
		g, err = translator.ReadPo(savePo(f))
	}
	if err != nil || g == nil {
		sym.Fail("a saved catalogue is refused")
		return f
	}
	return g
}

// c31check compares a catalogue with what conversions make of it.
func c31check(ms []*msg, steps int) {
	f := fileOf(ms)
	g := f
	for i := 0; i < steps; i++ {
		g = c31convert(g, sym.Choose(2) == 1)
	}
	c31same(fileOf(ms), g, ms) // f may have been changed by the saving
	comments := false
	for _, m := range ms {
		comments = comments || len(m.cmts) > 0
	}
	sym.Assert(string(saveMo(g)) == string(saveMo(f)), "another MO file")
	if !comments {
		sym.Assert(string(savePo(g)) == string(savePo(f)), "another PO file")
		sym.Assert(string(savePot(g)) == string(savePot(f)), "another template")
	}
}

// c31same: every lookup gives the same answer.
func c31same(f, g t.Translator, ms []*msg) {
	n := sym.Int64()
	sym.Assert(f.Lang() == g.Lang(), "another language")
	for _, m := range append(ms[:len(ms):len(ms)], &msg{id: "unknown", plural: true, id2: "unknowns"}) {
		for _, ctx := range []string{"", "c", m.ctx} {
			if m.plural {
				a := f.XN64(ctx, m.id, m.id2, n, 7)
				sym.Assert(g.XN64(ctx, m.id, m.id2, n, 7) == a, "another plural form")
				sym.ObserveStr("plural", a)
			} else if ctx != "" || m.id != "" {
				a := f.X(ctx, m.id)
				sym.Assert(g.X(ctx, m.id) == a, "another translation")
				sym.Assert(f.X(ctx, m.id, 7) == g.X(ctx, m.id, 7), "another formatted translation")
				sym.ObserveStr("str", a)
			}
		}
	}
}

// H_C31_shapes: two messages of every shape, converted up to three times.
func H_C31_shapes() {
	ms := []*msg{{str: []string{header2, "Language: ru\nPlural-Forms: nplurals=3; plural=n%10==1 ? 0 : n==2 ? 1 : 2;\n"}[sym.Choose(2)]}}
	for i := 0; i < 2; i++ {
		m := &msg{id: "i" + string(rune('a'+i))}
		x := "b"
		if i == 0 || sym.Thorough() {
			x = sym.StringIn(1, "a\n\"\\\x80")
		}
		switch sym.Choose(4) {
		case 0:
			m.str = x + "s"
		case 1:
			m.ctx, m.str = "c", "%d"+x
		case 2:
			m.plural, m.id2, m.strN = true, m.id+"s", []string{x, "%d" + x}
		case 3:
			m.ctx, m.plural, m.id2, m.strN = "c"+x, true, "%ds", []string{"one", "", x}
		}
		ms = append(ms, m)
	}
	c31check(ms, 1+sym.Choose(2+b2int(sym.Thorough())))
}

// H_C31_bytes: arbitrary bytes in every field.
func H_C31_bytes() {
	m := &msg{id: "i", str: "s"}
	put(m, sym.Choose(6), []string{"x", ""}[sym.Choose(2)]+clean(1+b2int(sym.Thorough()), true))
	c31check([]*msg{{str: header2}, m, {id: "other", str: "o"}}, 2)
}

// H_C31_header: arbitrary header text.
func H_C31_header() {
	h := []string{"Language: fr" + clean(1, false), "Language: fr\nX: " + clean(2, false) + "\n", "\n" + clean(1, false) + "Language: fr\n", "Plural-Forms: nplurals=2; plural=" + sym.StringIn(1, "n1x") + ";\nLanguage:\tfr\n"}[sym.Choose(4)]
	ms := []*msg{{str: h}, {id: "i", plural: true, id2: "is", strN: []string{"a", "b"}}}
	f := fileOf(ms)
	g := c31convert(c31convert(f, sym.Choose(2) == 1), sym.Choose(2) == 1)
	c31same(f, g, ms)
	c31headers(f, g, "X")
}

// c31headers: the same header.
func c31headers(f, g *translator.File, more string) {
	for _, k := range []string{"Language", "Plural-Forms", "None", more} {
		a, aok := f.GetHeader(k)
		b, bok := g.GetHeader(k)
		sym.Assert(a == b && aok == bok, "another header field")
	}
	sym.Assert(f.X("", "") == g.X("", ""), "another header text")
	sym.Assert(f.XN64("", "", "", 1) == g.XN64("", "", "", 1), "another header text")
}

// H_C31_fields: header fields of arbitrary names, and of those the code knows.
func H_C31_fields() {
	k := "x" + sym.StringIn(2, "aA-_ 1:")
	if sym.Choose(2) == 1 {
		k = sym.Word("", "any", 30)
	}
	ms := []*msg{{str: "Language: fr\n" + k + ": a\n" + "MIME-Version: 1.0\n" + k + "B:b\n"}, {id: "i", str: "j"}}
	for i := 0; i < len(k); i++ {
		if k[i] == 0 {
			return
		}
	}
	f := fileOf(ms)
	g := c31convert(c31convert(f, sym.Choose(2) == 1), sym.Choose(2) == 1)
	c31same(f, g, ms)
	c31headers(f, g, k)
}

// H_C31_words: messages made of what is written in the code.
func H_C31_words() {
	w := sym.Word("", "any", 60)
	for i := 0; i < len(w); i++ {
		if w[i] == 0 || w[i] == 4 {
			return
		}
	}
	m := &msg{id: "i", str: "s"}
	put(m, sym.Choose(6), w)
	c31check([]*msg{{str: header2}, m, {id: "other", str: "o"}}, 2)
}

// H_C31_long: long texts with a special character or two anywhere.
func H_C31_long() {
	x := ""
	if sym.Thorough() {
		x = clean(2, true)
	} else if sym.Choose(2) == 0 {
		x = clean(1, true)
	} else {
		x = []string{"\r\n", "\n\n", "\\\"", "  ", "\n ", " \n", "\xe4\xb8\xad", "\\n"}[sym.Choose(8)]
	}
	long := "several words of no meaning, "
	for n := []int{60, 100, 200, 400}[sym.Choose(3+b2int(sym.Thorough()))]; len(long) < n; {
		long += "and more of them; "
	}
	at := len(long) * sym.Choose(3) / 2
	m := &msg{id: "i", str: "s"}
	put(m, sym.Choose(6), long[:at]+x+long[at:])
	c31check([]*msg{{str: header2}, m}, 1)
}

// H_C31_many: many messages of all shapes.
func H_C31_many() {
	ms := manyMsgs(true)
	c31check(ms, 1+sym.Choose(3))
}

// H_C31_domain: the same catalogue loaded from a PO file, an MO file or added
// as it is answers alike.
func H_C31_domain() {
	x := sym.StringIn(2, "ab\n%")
	ms := []*msg{{str: header2}, {id: "m", str: "t" + x}, {ctx: "c", id: "m", str: x + "t"}, {id: "p", plural: true, id2: "ps", strN: []string{"one" + x, x + "more"}}}
	f := fileOf(ms)
	trs := []*t.Translation{t.NewTranslation("a", f), t.NewTranslation("b"), t.NewTranslation("c"), t.NewTranslation("d")}
	sym.Assert(trs[1].LoadPo(savePo(f)) == nil, "PO refused")
	sym.Assert(trs[2].LoadMo(saveMo(f)) == nil, "MO refused")
	m := new(memFS).add("x/y.mo", string(saveMo(f)))
	if sym.Choose(2) == 1 {
		m = new(memFS).add("y.po", string(savePo(f)))
	}
	sym.Assert(trs[3].LoadFS(m), "tree refused")
	for _, tr := range trs[1:] {
		g, ok := tr.Get("zh_CN")
		sym.Assert(ok, "not found")
		if ok {
			c31same(f, g, ms)
		}
	}
}

// H_C31_comments: comments of any kind at any message: they change no answer.
func H_C31_comments() {
	var c string
	kinds := []string{"#, fuzzy", "#, fuzzy, c-format", "#| msgid \"old\"", "#~ msgid \"gone\"", "#: a.go:1", "#. extracted", "#", "# msgstr \"x\"", "#,fuzzy", "#, no-c-format", "#, range: 1..2"}
	if k := sym.Choose(len(kinds) + 1); k < len(kinds) {
		c = kinds[k]
	} else {
		c = "#" + clean(1, false) + "x"
		for i := 0; i < len(c); i++ {
			sym.Assume(c[i] != '\n')
			sym.Assume(c[i] != '\r')
		}
	}
	ms := []*msg{{str: header2}, {id: "a", str: "A" + letters(1)}, {ctx: "c", id: "b", str: "B"}, {id: "p", plural: true, id2: "ps", strN: []string{"P", "Q"}}}
	m := ms[sym.Choose(len(ms))]
	switch sym.Choose(3) {
	case 0:
		m.cmts = []string{c}
	case 1:
		m.cmts = []string{c, "# other"}
	case 2:
		m.cmts = []string{"# other", c}
	}
	c31check(ms, 1+sym.Choose(2))
}

// H_C31_counts: every message has a number of forms of its own.
func H_C31_counts() {
	x := letters(1)
	forms := []string{x, "b", "c" + x, "d", "e", "f"}
	rule := []string{"nplurals=3; plural=n%3", "nplurals=6; plural=n%6", "nplurals=1; plural=0", "plural=n"}[sym.Choose(4)]
	ms := []*msg{{str: "Language: fr\nPlural-Forms: " + rule + ";\n"}}
	for i := 0; i < 2; i++ {
		ms = append(ms, &msg{id: "p" + itoa(i), plural: true, id2: "ps", strN: forms[:1+sym.Choose(6)]})
	}
	c31check(ms, 1)
}
