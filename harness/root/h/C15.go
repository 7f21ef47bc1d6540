package h

import (
	"strings"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// c15check saves, reads back, and compares.
func c15check(ms []*msg) {
	withComments = true
	f := fileOf(ms)
	text := savePo(f)
	sym.ObserveStr("text", string(text))
	g, err := translator.ReadPo(text)
	if err != nil {
		sym.Fail("saved PO text cannot be read back")
		return
	}
	sameMessages(f, ms)
	sameMessages(g, ms)
	sym.Assert(f.Lang() == g.Lang(), "language")
	a, aok := f.GetHeader("Plural-Forms")
	b, bok := g.GetHeader("Plural-Forms")
	sym.Assert(a == b && aok == bok, "plural rule")
	sym.Assert(string(savePo(g)) == string(text), "saving again gives another text")
}

// H_C15_bytes: any bytes in any field.
func H_C15_bytes() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	m := &msg{id: "id", str: "x"}
	where := sym.Choose(6)
	n := 1 + sym.Choose(max)
	if where != 0 && n > 1 && !sym.Thorough() {
		n = 1
	}
	put(m, where, sym.String(n))
	c15check([]*msg{{str: "Language: zh_CN\n"}, m, {id: "zz", str: "last"}})
}

// H_C15_special: longer strings over the characters that need care.
func H_C15_special() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	m := &msg{id: "id", str: "x"}
	s := sym.StringIn(1+sym.Choose(max), "\"\\\n n#\x00\xe9")
	put(m, sym.Choose(2)*2, s)
	c15check([]*msg{m, {id: "zz", str: "last"}})
}

// H_C15_wrap: strings around the length at which lines are split.
func H_C15_wrap() {
	base := 75 + sym.Choose(5)
	fill := strings.Repeat("x", 160)
	k := 3
	if sym.Thorough() {
		k = 4
	}
	s := ""
	for i := 0; i < k; i++ {
		cut := []int{0, 1, 40, base - 2, base}[sym.Choose(5)]
		s += fill[:cut] + sym.StringIn(1, " \nx")
	}
	m := &msg{id: "id", str: "x"}
	put(m, sym.Choose(2)*3, s)
	c15check([]*msg{m})
}

// H_C15_comments: comments stay with their message, byte for byte.
func H_C15_comments() {
	c := func() string {
		s := sym.String(sym.Choose(2 + b2int(sym.Thorough())))
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] != '\n' && s[i] != '\r')
		}
		return "#" + s
	}
	a := &msg{id: "a", str: "A"}
	b := &msg{ctx: "c", id: "b", id2: "bs", plural: true, strN: []string{"B"}}
	h := &msg{str: "Language: zh_CN\n"}
	for i, k := 0, sym.Choose(3); i < k; i++ {
		a.cmts = append(a.cmts, c())
	}
	if sym.Choose(2) == 1 {
		b.cmts = append(b.cmts, c(), "#: a.go:12")
	}
	if sym.Choose(2) == 1 {
		h.cmts = append(h.cmts, c(), "#, fuzzy")
	}
	c15check([]*msg{h, a, b})
}

// H_C15_shapes: two messages of any shape with short strings.
func H_C15_shapes() {
	var ms []*msg
	if sym.Choose(2) == 1 {
		ms = append(ms, &msg{str: header2})
	}
	k := 2
	if sym.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		m := &msg{id: sym.StringIn(1, "ab")}
		if sym.Choose(2) == 1 {
			m.ctx = sym.StringIn(1, "ab")
		}
		if sym.Choose(2) == 1 {
			m.plural, m.id2 = true, sym.StringIn(sym.Choose(2), "ab")
			for j, n := 0, 1+sym.Choose(3); j < n; j++ {
				m.strN = append(m.strN, []string{"", "t\n"}[sym.Choose(2)])
			}
		} else {
			m.str = "T" + string(rune('0'+i))
		}
		ms = append(ms, m)
	}
	distinct(ms)
	c15check(ms)
}

// H_C15_header: header fields.
func H_C15_header() {
	s := sym.String(2)
	h := &msg{str: "Language: " + s[:1] + "\nX-A: b\nPlural-Forms: nplurals=1; plural=0;" + s[1:] + "\n"}
	c15check([]*msg{h})
}

// H_C15_utf8: any character up to U+024F (thorough: any).
func H_C15_utf8() {
	r := sym.Rune()
	max := rune(0x24f)
	if sym.Thorough() {
		max = 0x10ffff
	}
	sym.Assume(r >= 0)
	sym.Assume(r <= max)
	sym.Assume(r < 0xd800 || r > 0xdfff)
	m := &msg{id: "id", str: "<" + string(r) + ">"}
	c15check([]*msg{m})
}

// H_C15_forms: more plural forms than ten.
func H_C15_forms() {
	m := &msg{ctx: "c", id: "id", id2: "ids", plural: true}
	n := 9 + sym.Choose(5)
	x := sym.StringIn(1, "ab\n")
	for i := 0; i < n; i++ {
		s := "f" + string(rune('A'+i))
		if i == n-2 {
			s = ""
		} else if i > 8 {
			s += x
		}
		m.strN = append(m.strN, s)
	}
	c15check([]*msg{{str: "Plural-Forms: nplurals=13; plural=n%13;\n"}, m, {id: "zz", str: "last"}})
}

// H_C15_wraps: texts of several lines.
func H_C15_wraps() {
	fill := strings.Repeat("xy", 30)
	k := 5
	if sym.Thorough() {
		k = 8
	}
	cut := []int{50, 30, 38}[sym.Choose(3)]
	s := ""
	for i := 0; i < k; i++ {
		s += fill[:cut] + sym.StringIn(1, " \n")
	}
	s += []string{"", " ", "\n", "\n\n", "\n\n\n\n", "   "}[sym.Choose(6)]
	switch sym.Choose(3) {
	case 1:
		s = "\n\n\n" + s
	case 2:
		s = "   " + s[:70] + "\n\n\n \n" + s[70:]
	}
	m := &msg{id: "id", str: "x"}
	put(m, sym.Choose(2)*3, s)
	c15check([]*msg{m})
}

// H_C15_many: more messages than a few, with comments, long and multi-line texts.
func H_C15_many() {
	c15check(manyMsgs(true))
}

// H_C15_size: sizes the code mentions.
func H_C15_size() {
	if sym.Choose(2) == 0 {
		c15check(sizedMsgs(5000))
		return
	}
	k := sym.Size("translator", 1, 2000)
	a, b := &msg{id: "a", str: "A"}, &msg{id: "b", str: "B"}
	x := letters(1)
	if sym.Choose(2) == 0 {
		a.cmts = []string{"# " + sized(k, x), "#: " + sized(k, x) + ".go:1"}
	} else {
		for i := 0; i < k%200; i++ {
			a.cmts = append(a.cmts, "# "+x+itoa(i))
		}
	}
	c15check([]*msg{a, b})
}

// H_C15_words: texts of the code.
func H_C15_words() {
	ms := wordMsgs()
	if !strings.ContainsAny(ms[3].str, "\n\r") {
		ms[1].cmts = []string{"#" + ms[3].str, "# " + ms[3].str}
		ms[0].cmts = []string{"#" + ms[3].str}
	}
	c15check(ms)
}

// H_C15_shape: long texts with blanks and line ends in unusual places.
func H_C15_shape() {
	k := sym.Size("translator", 1, 400)
	if k > 3000 {
		return
	}
	w := shaped(k, letters(1))
	ms := []*msg{{id: "a", str: w}, {ctx: w, id: "b", str: "c"}}
	if sym.Choose(2) == 1 {
		ms = []*msg{{id: w, plural: true, id2: w, strN: []string{"a", w}}, {str: w}}
	}
	c15check(ms)
}
