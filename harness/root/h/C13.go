package h

import (
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// c13check saves, reads back, and compares.
func c13check(f *translator.File, ms []*msg) {
	g, err := translator.ReadMo(saveMo(f))
	if err != nil {
		sym.Fail("saved MO file cannot be read back")
		return
	}
	sameMessages(f, ms) // saving does not change the catalogue
	sameMessages(g, ms)
	sym.Assert(g.Lang() == f.Lang(), "language")
	for _, h := range []string{"Language", "Plural-Forms", "X-Foo", "None"} {
		a, aok := f.GetHeader(h)
		b, bok := g.GetHeader(h)
		sym.Assert(a == b && aok == bok, "header field "+h)
	}
	n := sym.Int64()
	for _, m := range ms {
		if m.plural {
			x, y := f.XN64(m.ctx, m.id, m.id2, n), g.XN64(m.ctx, m.id, m.id2, n)
			sym.Assert(x == y, "plural lookup differs")
			sym.ObserveStr("plural", x)
		} else if m.id != "" || m.ctx != "" {
			sym.Assert(g.X(m.ctx, m.id) == m.answer(), "lookup differs")
			sym.ObserveStr("str", m.str)
		}
	}
}

// H_C13_two: header and two messages, all shapes.
func H_C13_two() {
	ms := []*msg{{str: header2}}
	max := 1
	if sym.Thorough() {
		max = 2
	}
	if sym.Choose(2) == 1 {
		ms = nil // no header
	}
	ms = append(ms, symMsg(max), symMsg(1))
	distinct(ms)
	f := fileOf(ms)
	c13check(f, ms)
}

// H_C13_three: three messages whose ids may be prefixes of one another.
func H_C13_three() {
	ms := []*msg{{str: header2}}
	max := 2
	if sym.Thorough() {
		max = 3
	}
	for i := 0; i < 3; i++ {
		m := &msg{id: clean(1+sym.Choose(max), true), str: string(rune('A' + i))}
		if i == 1 {
			m.plural, m.id2, m.str, m.strN = true, "p", "", []string{"B0", "", "B2"}
		}
		ms = append(ms, m)
	}
	distinct(ms)
	if sym.Choose(2) == 1 {
		ms[0], ms[3] = ms[3], ms[0]
	}
	c13check(fileOf(ms), ms)
}

// H_C13_long: long strings and many plural forms.
func H_C13_long() {
	max := 10
	if sym.Thorough() {
		max = 60
	}
	m := &msg{ctx: clean(3, true), id: clean(4, false), str: clean(1+sym.Choose(max), false)}
	p := &msg{id: clean(2, true), id2: clean(3, false), plural: true}
	for i, k := 0, 1+sym.Choose(6); i < k; i++ {
		p.strN = append(p.strN, clean(i%3, false))
	}
	ms := []*msg{{str: "Language: ar\nPlural-Forms: nplurals=6; plural=" + arabic + ";\n"}, m, p}
	distinct(ms)
	c13check(fileOf(ms), ms)
}

// H_C13_header: arbitrary header text.
func H_C13_header() {
	s := clean(3, false)
	ms := []*msg{{str: "Language: " + s + "\nX-Foo: " + s[:1] + []string{"\n", "", "\n\n"}[sym.Choose(3)]}, {id: "a", str: "b"}}
	f := fileOf(ms)
	f.AddEntry(&translator.Entry{MsgCmts: []string{"# comment", "#: a.go:3"}, MsgID: "a", MsgStr: "b"})
	c13check(f, ms)
}

// H_C13_many: more messages than a few, with longer symbolic strings, added in an
// order that is not that of their ids.
func H_C13_many() {
	n := []int{6, 9, 14}[sym.Choose(3)]
	ms := []*msg{{str: "Language: ar\nPlural-Forms: nplurals=6; plural=" + arabic + ";\n"}}
	for i := 0; i < n; i++ {
		m := &msg{id: string(rune('a'+(i*5)%n)) + clean(3, true)}
		switch i % 3 {
		case 0:
			m.str = clean(4, false)
		case 1:
			m.ctx, m.str = string(rune('a'+(i*3)%n))+clean(2, true), clean(1+i, false)
		case 2:
			m.plural, m.id2 = true, clean(2, false)
			for j := 0; j <= i%6; j++ {
				m.strN = append(m.strN, clean(j, false))
			}
		}
		ms = append(ms, m)
	}
	f := fileOf(ms)
	c13check(f, ms)
}

// H_C13_size: sizes the code mentions.
func H_C13_size() {
	ms := sizedMsgs(70000)
	c13check(fileOf(ms), ms)
}

// H_C13_words: texts of the code.
func H_C13_words() {
	ms := wordMsgs()
	c13check(fileOf(ms), ms)
}
