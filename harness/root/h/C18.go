package h

import (
	"strings"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// c18check saves a template and reads it back.
func c18check(ms []*msg, tail string) {
	withComments = true
	f := fileOf(ms)
	text := string(savePot(f))
	sym.ObserveStr("text", text)
	sameMessages(f, ms) // saving does not change the catalogue

	// every message once, untranslated
	count := map[string]int{}
	head := false
	var want []*msg
	for _, m := range ms {
		w := &msg{ctx: m.ctx, id: m.id, id2: m.id2, plural: m.plural, cmts: m.cmts}
		if m.plural {
			count[`msgstr[0] ""`]++
			count[`msgstr[1] ""`]++
			w.strN = []string{"", ""}
		} else if m.ctx == "" && m.id == "" {
			w.str, head = m.str, true
		} else {
			count[`msgstr ""`]++
		}
		want = append(want, w)
	}
	for _, l := range strings.Split(text, "\n") {
		if !strings.HasPrefix(l, "msgstr") {
			continue
		}
		if head { // the header comes first
			head = false
			continue
		}
		count[l]--
	}
	for _, n := range count {
		sym.Assert(n == 0, "not every message once and untranslated")
	}

	g, err := translator.ReadPot([]byte(text + tail))
	if err != nil {
		sym.Fail("saved template cannot be read back")
		return
	}
	sameMessages(g, want)
	sym.Assert(g.Lang() == f.Lang(), "language")
	sym.Assert(string(savePot(g)) == text, "saving again gives another text")
}

// H_C18_bytes: any bytes in any field, translated or not.
func H_C18_bytes() {
	max := 1
	if sym.Thorough() {
		max = 2
	}
	m := &msg{id: "id", str: "x"}
	where := sym.Choose(6)
	put(m, where, sym.String(1+sym.Choose(max)))
	if sym.Choose(2) == 1 {
		m.str, m.strN = "", nil
	}
	c18check([]*msg{{str: "Language: zh_CN\nX: y\n"}, m, {id: "zz", str: "last"}}, "")
}

// H_C18_special: longer strings over the characters that need care.
func H_C18_special() {
	max := 3
	if sym.Thorough() {
		max = 5
	}
	m := &msg{id: "id", str: "x"}
	s := sym.StringIn(1+sym.Choose(max), "\"\\\n n#\x00\xe9")
	put(m, 1+sym.Choose(3), s)
	c18check([]*msg{m, {id: "zz", str: "last"}}, "")
}

// H_C18_translated: longer translations and comments, which saving need not look at.
func H_C18_translated() {
	s := sym.String([]int{2, 5, 9}[sym.Choose(3)])
	m := &msg{id: "id", str: "x"}
	switch sym.Choose(5) {
	case 0:
		m.str = s
	case 1:
		m.plural, m.id2, m.strN = true, "ids", []string{s, "two"}
	case 2:
		m.plural, m.id2, m.strN = true, "ids", []string{"one", s, "three"}
	case 3:
		m.plural, m.id2, m.str = true, "ids", s
	case 4:
		s = sym.String([]int{3, 7}[sym.Choose(2)])
		sym.Assume(s[0] != ':') // references decide the order, see C19
		for i := 0; i < len(s); i++ {
			lo := byte(' ')
			if i+1 == len(s) {
				lo = '!'
			}
			sym.Assume(s[i] >= lo)
			sym.Assume(s[i] < 0x7f)
		}
		m.cmts = []string{"#" + s, "#: a.go:1"}
	}
	c18check([]*msg{{str: "Language: zh_CN\n"}, m, {ctx: "c", id: "zz", str: "last"}}, "")
}

// H_C18_header: the header's value stays as it is.
func H_C18_header() {
	n := 1
	if sym.Thorough() {
		n = 2
	}
	h := &msg{str: []string{"", "Language: ", "A: b\nLanguage: zh\n"}[sym.Choose(3)] + sym.String(sym.Choose(n+1))}
	if sym.Choose(2) == 1 {
		h.cmts = []string{"# SOME TITLE", "#, fuzzy"}
	}
	ms := []*msg{h}
	if sym.Choose(2) == 1 {
		ms = append(ms, &msg{id: "m"})
	}
	c18check(ms, "")
}

// H_C18_shapes: messages of any shape.
func H_C18_shapes() {
	var ms []*msg
	if sym.Choose(2) == 1 {
		ms = append(ms, &msg{str: header2})
	}
	k := 2
	if sym.Thorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		m := &msg{id: sym.StringIn(1, "ab")}
		switch sym.Choose(3) {
		case 0:
			m.ctx = sym.StringIn(1, "ab")
			if i == 0 && sym.Choose(2) == 1 {
				m.id = ""
			}
		case 1:
			m.cmts = []string{"#: a.go:" + sym.StringIn(1, "19"), "#. note"}
		}
		switch sym.Choose(4) {
		case 0:
			m.str = "T\n"
		case 2:
			m.plural, m.id2 = true, sym.StringIn(sym.Choose(2), "ab")
		case 3:
			m.plural, m.id2, m.strN = true, "p", []string{"one", "two", "three"}
		}
		ms = append(ms, m)
	}
	distinct(ms)
	c18check(ms, []string{"", "# end", "\n#~ msgid \"old\"\n\n"}[sym.Choose(3)])
}

// H_C18_wrap: long ids.
func H_C18_wrap() {
	fill := strings.Repeat("x", 160)
	s := ""
	for i := 0; i < 2+b2int(sym.Thorough()); i++ {
		cut := []int{0, 1, 40, 75, 76, 77, 78}[sym.Choose(7)]
		s += fill[:cut] + sym.StringIn(1, " \nx")
	}
	m := &msg{id: "id"}
	put(m, 1+2*sym.Choose(2), s)
	c18check([]*msg{m}, "")
}

// H_C18_comments: comments stay with their message.
func H_C18_comments() {
	c := func() string {
		s := sym.String(sym.Choose(2 + b2int(sym.Thorough())))
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] != '\n' && s[i] != '\r')
		}
		return "#" + s
	}
	a, b := &msg{id: "a"}, &msg{ctx: "c", id: "b", id2: "bs", plural: true}
	for i, k := 0, sym.Choose(3); i < k; i++ {
		a.cmts = append(a.cmts, c())
	}
	if sym.Choose(2) == 1 {
		b.cmts = append(b.cmts, c(), "#: a.go:12")
	}
	c18check([]*msg{{str: "Language: zh_CN\n", cmts: []string{"#"}}, a, b}, "")
}

// H_C18_many: more messages than a few, with comments, long and multi-line texts.
func H_C18_many() {
	c18check(manyMsgs(false), "")
}

// H_C18_size: sizes the code mentions.
func H_C18_size() {
	ms := sizedMsgs(5000)
	if sym.Choose(2) == 1 { // untranslated
		for _, m := range ms[1:] {
			m.str, m.strN = "", nil
		}
	}
	c18check(ms, "")
}

// H_C18_words: texts of the code.
func H_C18_words() {
	ms := wordMsgs()
	if w := ms[3].str; !strings.ContainsAny(w, "\n\r") && w[0] != ':' {
		ms[1].cmts = []string{"#" + w, "# " + w}
		ms[0].cmts = []string{"#" + w}
	}
	c18check(ms, "")
}

// H_C18_headshape: headers of any number of lines and of any shape, blank lines included.
func H_C18_headshape() {
	x := letters(1)
	h := ""
	switch sym.Choose(4) {
	case 0:
		k := sym.Size("translator", 1, 40)
		if k > 300 {
			return
		}
		for i := 0; i < k; i++ {
			h += "X-" + itoa(i) + ": " + x + "\n"
		}
	case 1:
		h = "Language: fr\n" + strings.Repeat("\n", sym.Choose(12)) + "X-A: " + x + strings.Repeat("\n", sym.Choose(12))
	default:
		k := sym.Size("translator", 1, 400)
		if k > 3000 {
			return
		}
		h = shaped(k, x)
	}
	c18check([]*msg{{str: h, cmts: []string{"# c"}}, {id: "a", str: "b"}}, "")
}
