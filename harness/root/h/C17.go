package h

import (
	"strings"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// poDoc is PO text together with the messages it stands for.
type poDoc struct {
	lines []string
	ms    []*msg
}

func (d *poDoc) line(s string) { d.lines = append(d.lines, s) }

// field writes a string as one or more quoted segments.
func (d *poDoc) field(key string, segs ...string) {
	for i, s := range segs {
		if i == 0 {
			s = key + " \"" + s + "\""
		} else {
			s = "\"" + s + "\""
		}
		d.line(s)
	}
}

// add writes a message without splitting its strings.
func (d *poDoc) add(m *msg) {
	for _, c := range m.cmts {
		d.line(c)
	}
	if m.ctx != "" {
		d.field("msgctxt", m.ctx)
	}
	d.field("msgid", m.id)
	if m.plural {
		d.field("msgid_plural", m.id2)
		for i, s := range m.strN {
			d.field("msgstr["+string(rune('0'+i))+"]", s)
		}
	} else {
		d.field("msgstr", m.str)
	}
	d.has(m)
}

// has records a message: it replaces an earlier one; untranslated ones do not count.
func (d *poDoc) has(m *msg) {
	if m.str == "" && len(m.strN) == 0 {
		return
	}
	for i, o := range d.ms {
		if o.ctx == m.ctx && o.id == m.id {
			d.ms[i] = m
			return
		}
	}
	d.ms = append(d.ms, m)
}

// text puts the lines together; blank is the line before which a blank line stands.
func (d *poDoc) text(eol string, blank int, end bool) string {
	s := ""
	for i, l := range d.lines {
		if i == blank {
			s += eol
		}
		if s += l; i < len(d.lines)-1 || end {
			s += eol
		}
	}
	return s
}

func c17read(text string, ms []*msg) {
	withComments = true
	f, err := translator.ReadPo([]byte(text))
	if err != nil {
		sym.Fail("well-formed PO text refused")
		return
	}
	sameMessages(f, ms)
}

// plain is a printable ASCII string that needs no escape.
func plain(n int) string {
	s := sym.String(n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
	}
	return s
}

func c17msg(i int) *msg {
	m := &msg{id: sym.StringIn(1, "ab")}
	if sym.Choose(2) == 1 {
		m.ctx = "c"
	}
	switch sym.Choose(5) {
	case 4:
		m.plural, m.id2, m.strN = true, "p", []string{"", "1", "2"}
	case 0:
		m.str = plain(1)
	case 1:
		m.str = "" // untranslated
	case 2:
		m.plural, m.id2, m.strN = true, "p", []string{"0" + plain(1), "1"}
	case 3:
		m.plural, m.strN = true, []string{"only"}
	}
	if sym.Choose(2) == 1 {
		m.cmts = []string{"#" + plain(1)}
	}
	return m
}

// H_C17_entries: sequences of entries, with or without a blank line somewhere,
// either line end, and with or without a final one.
func H_C17_entries() {
	d := new(poDoc)
	k := 2
	if sym.Thorough() {
		k = 3
	}
	if sym.Choose(2) == 1 {
		d.add(&msg{str: "Language: xx", cmts: []string{"# head"}})
	}
	for i := 0; i < k; i++ {
		d.add(c17msg(i))
	}
	eol, blank := "\n", -1
	if !sym.Thorough() {
		eol = []string{"\n", "\r\n"}[sym.Choose(2)]
		blank = []int{-1, 1, len(d.lines) / 2, len(d.lines) - 1}[sym.Choose(4)]
	} else if sym.Choose(2) == 1 {
		eol, blank = "\r\n", len(d.lines)/2
	}
	c17read(d.text(eol, blank, sym.Choose(2) == 1), d.ms)
}

// H_C17_layout: one document, a blank line (or several) anywhere, every line end.
func H_C17_layout() {
	d := new(poDoc)
	d.field("msgid", "")
	d.field("msgstr", "", "Language: xx\\n", "X-A: "+plain(1)+"\\n")
	d.has(&msg{str: "Language: xx\nX-A: " + d.lines[len(d.lines)-1][6:7] + "\n"})
	x := plain(1)
	d.line("# one")
	d.line("#: a.go:1")
	d.line("")
	d.line("#, c-format")
	d.field("msgctxt", "c", x, "t")
	d.field("msgid", "", x, "d")
	d.field("msgid_plural", "p", "", x)
	d.field("msgstr[0]", "z", x)
	d.field("msgstr[1]", "", x, x)
	d.has(&msg{ctx: "c" + x + "t", id: x + "d", plural: true, id2: "p" + x, strN: []string{"z" + x, x + x}, cmts: []string{"# one", "#: a.go:1", "#, c-format"}})
	d.line("#~ msgid \"old\"")
	d.field("msgid", "q")
	d.field("msgstr", "r", "s")
	d.has(&msg{id: "q", str: "rs", cmts: []string{"#~ msgid \"old\""}})
	d.line("# trailing")
	eol := []string{"\n", "\r\n"}[sym.Choose(2)]
	blank := sym.Choose(len(d.lines)+1) - 1
	if sym.Choose(2) == 1 && blank >= 0 {
		d.lines[blank] = []string{" ", "\t", "\n \n"}[sym.Choose(3)] + eol + d.lines[blank]
	}
	c17read(d.text(eol, blank, sym.Choose(2) == 1), d.ms)
}

// H_C17_split: a string cut into segments at any place.
func H_C17_split() {
	n := 4
	if sym.Thorough() {
		n = 7
	}
	s := plain(n)
	i := sym.Choose(n + 1)
	j := i + sym.Choose(n+1-i)
	segs := []string{s[:i], s[i:j], s[j:]}
	d := new(poDoc)
	m := &msg{id: "k", str: "v"}
	switch where := sym.Choose(5); where {
	case 0:
		m.str = s
		d.field("msgid", "k")
		d.field("msgstr", segs...)
	case 1:
		m.id = "k" + s
		d.field("msgid", append([]string{"k"}, segs...)...)
		d.field("msgstr", "v")
	case 2:
		m.ctx = "c" + s
		d.field("msgctxt", append([]string{"c"}, segs...)...)
		d.field("msgid", "k")
		d.field("msgstr", "v")
	default:
		m.plural, m.id2, m.str, m.strN = true, s, "", []string{"v", s}
		d.field("msgid", "k")
		d.field("msgid_plural", segs...)
		d.field("msgstr[0]", "v")
		if where == 3 {
			segs = []string{s}
		}
		d.field("msgstr[1]", segs...)
	}
	d.has(m)
	d.add(&msg{id: "next", str: "w"})
	c17read(d.text("\n", -1, true), d.ms)
}

// item is one character of a string as written and as meant.
func item() (text, val string) {
	switch sym.Choose(6) {
	case 0:
		c := plain(1)
		return c, c
	case 1:
		i := sym.Choose(9)
		return "\\" + "nrtabfv\\\""[i:i+1], "\n\r\t\a\b\f\v\\\""[i : i+1]
	case 2: // octal
		a, b, c := sym.Byte(), sym.Byte(), sym.Byte()
		sym.Assume(a >= '0' && a <= '3' && b >= '0' && b <= '7' && c >= '0' && c <= '7')
		return "\\" + string([]byte{a, b, c}), string([]byte{(a-'0')<<6 | (b-'0')<<3 | (c - '0')})
	case 3: // hexadecimal
		a, b := sym.Byte(), sym.Byte()
		sym.Assume(a >= '0' && a <= '9' && b >= 'a' && b <= 'f')
		return "\\x" + string([]byte{a, b}), string([]byte{(a-'0')<<4 | (b - 'a' + 10)})
	case 4:
		return "\t#msgid ", "\t#msgid "
	}
	return "é世", "é世"
}

// H_C17_escapes: characters and escapes in any field.
func H_C17_escapes() {
	k := 2
	if sym.Thorough() {
		k = 3
	}
	text, val := "", ""
	for i := 0; i < k; i++ {
		t, v := item()
		text, val = text+t, val+v
	}
	d := new(poDoc)
	m := &msg{id: "k", str: "v"}
	switch sym.Choose(3) {
	case 0:
		m.str = val
		d.field("msgid", "k")
		d.field("msgstr", text)
	case 1:
		m.id = "k" + val
		d.field("msgid", "k", text)
		d.field("msgstr", "v")
	case 2:
		m.ctx = val
		d.field("msgctxt", text)
		d.field("msgid", "k")
		d.field("msgstr", "", "v")
	}
	d.has(m)
	c17read(d.text("\n", -1, true), d.ms)
}

// H_C17_bad: a line that is nothing known is an error, wherever it stands.
func H_C17_bad() {
	d := new(poDoc)
	d.add(&msg{str: "Language: xx", cmts: []string{"# head"}})
	d.add(&msg{ctx: "c", id: "a", plural: true, id2: "as", strN: []string{"x", "y"}})
	d.add(&msg{id: "b", str: "z"})
	at := sym.Choose(len(d.lines) + 1)
	bad := ""
	switch sym.Choose(9) {
	case 0: // arbitrary bytes
		n := 1 + sym.Choose(2+b2int(sym.Thorough()))
		bad = sym.String(n)
		for i := 0; i < n; i++ {
			sym.Assume(bad[i] < 0x80 && bad[i] != '\n' && bad[i] != '\r')
		}
		sym.Assume(bad[0] > ' ' && bad[0] != '#' && bad[0] != '"')
	case 1:
		bad = "msgid" + sym.StringIn(1, "_x:=[") + "\"x\""
	case 2:
		bad = "msgstr[" + sym.StringIn(1, "3456789x-") + "] \"x\""
	case 3:
		bad = "msgstr \"" + plain(1) // no closing quote
	case 4:
		bad = "msgid " + plain(2) // no quotes
	case 5:
		bad = "msgid \"a\" " + plain(1) + "x"
	case 6:
		bad = "\"\\" + sym.StringIn(1, "zqe( %") + "\""
	case 7:
		bad = "domain \"x\""
	case 8:
		bad = "\"a\"b\""
	}
	d.lines = append(d.lines[:at:at], append([]string{bad}, d.lines[at:]...)...)
	_, err := translator.ReadPo([]byte(d.text("\n", -1, true)))
	sym.Assert(err != nil, "malformed line accepted")
}

// H_C17_orphan: a string line that follows no field is an error.
func H_C17_orphan() {
	s := "\"" + plain(1) + "\""
	text := []string{"", "\n\n", "# c\n", "#\n\n#x\n"}[sym.Choose(4)] + s + "\n"
	if sym.Choose(2) == 1 {
		text = "msgid \"\"\nmsgstr \"Language: xx\"\n\n# c\n" + s + "\nmsgid \"a\"\nmsgstr \"b\"\n"
	}
	_, err := translator.ReadPo([]byte(text))
	sym.Assert(err != nil, "string line without a field accepted")
}

// H_C17_many: a long text with many entries, long and multi-line strings, repeated
// and untranslated messages.
func H_C17_many() {
	n := []int{8, 15, 40}[sym.Choose(3)]
	x := plain(1)
	sep := sym.Choose(3) // blank lines: none, one after each entry, several
	d := new(poDoc)
	d.add(&msg{str: "Language: xx", cmts: []string{"# head"}})
	for i := 0; i < n; i++ {
		name := string([]byte{'a' + byte(i%26), '0' + byte(i%3)})
		if i == n-2 {
			name = "a0" // again
		}
		m := &msg{id: name, cmts: []string{"# " + name, "#: f.go:" + itoa(i+1)}[:i%3]}
		if i%4 == 1 && i != n-2 {
			m.ctx = "c" + name
		}
		for _, c := range m.cmts {
			d.line(c)
		}
		if m.ctx != "" {
			d.field("msgctxt", m.ctx)
		}
		d.field("msgid", m.id)
		switch i % 5 {
		case 2:
			m.plural, m.id2 = true, "p"+x
			d.field("msgid_plural", "p", x)
			for j := 0; j <= i%11; j++ {
				s := "f" + itoa(j) + x
				m.strN = append(m.strN, s+"end")
				d.field("msgstr["+itoa(j)+"]", s, "end")
			}
		case 3: // many lines
			segs := []string{""}
			for j := 0; j < i; j++ {
				segs = append(segs, "line "+x+strings.Repeat(" word", j)+"\\n")
				m.str += "line " + x + strings.Repeat(" word", j) + "\n"
			}
			d.field("msgstr", segs...)
		case 4:
			if i%2 == 0 { // untranslated
				d.field("msgstr", "")
				break
			}
			fallthrough
		default:
			m.str = "T" + name + x + itoa(i)
			d.field("msgstr", m.str)
		}
		d.has(m)
		if sep == 1 || sep == 2 && i%3 == 0 {
			d.line("")
		}
		if sep == 2 && i%7 == 0 {
			d.line("   ")
		}
	}
	c17read(d.text([]string{"\n", "\r\n"}[sym.Choose(2)], -1, sym.Choose(2) == 1), d.ms)
}

// H_C17_size: lengths, numbers of lines, forms and comments the code mentions.
func H_C17_size() {
	k := sym.Size("translator", 1, 3000)
	x := plain(1)
	d := new(poDoc)
	m := &msg{id: "k", str: "v"}
	switch sym.Choose(7) {
	case 0:
		m.str = sized(k, x)
	case 1:
		m.id = sized(k, x) + "k"
	case 2:
		m.ctx = sized(k, x)
	case 3:
		for i := 0; i < k%300; i++ {
			m.cmts = append(m.cmts, "#"+x+itoa(i))
		}
	case 4:
		m.cmts = []string{"# " + sized(k, "x")}
	case 5:
		segs := []string{""}
		m.str = ""
		for i := 0; i <= k%300; i++ {
			segs = append(segs, x+itoa(i))
			m.str += x + itoa(i)
		}
		d.field("msgid", "k")
		d.field("msgstr", segs...)
		d.has(m)
	case 6: // blank lines
		d.add(&msg{id: "first", str: "f"})
		for i := 0; i < k%300; i++ {
			d.line("")
		}
	}
	if len(d.ms) == 0 || d.ms[0] != m {
		d.add(m)
	}
	d.add(&msg{id: "next", str: "w"})
	c17read(d.text([]string{"\n", "\r\n"}[sym.Choose(2)], -1, true), d.ms)
}

// H_C17_words: texts of the code inside strings and comments.
func H_C17_words() {
	w := sym.Word("translator", "any", 80)
	for i := 0; i < len(w); i++ {
		if w[i] < ' ' || w[i] == '"' || w[i] == '\\' || w[i] >= 0x7f {
			return
		}
	}
	sym.Assume(w != "")
	d := new(poDoc)
	d.add(&msg{str: "Language: xx", cmts: []string{"#" + w}})
	d.add(&msg{id: w, str: "a", cmts: []string{"# " + w, "#~ " + w}})
	d.add(&msg{ctx: w, id: "b", str: w})
	d.add(&msg{id: "c" + w, plural: true, id2: w, strN: []string{w, "x" + w}, cmts: []string{"#" + w + " \"x\""}})
	m := &msg{id: "d" + w, str: w + w}
	d.field("msgid", "d", w)
	d.field("msgstr", "", w, w)
	d.has(m)
	c17read(d.text("\n", sym.Choose(len(d.lines)+1)-1, sym.Choose(2) == 1), d.ms)
}

// H_C17_cr: any number of CR characters at the end of any line.
func H_C17_cr() {
	d := new(poDoc)
	x := plain(1)
	d.add(&msg{str: "Language: xx", cmts: []string{"# head"}})
	d.add(&msg{ctx: "c", id: "a", plural: true, id2: "as", strN: []string{x, "y"}, cmts: []string{"#", "#: a.go:1"}})
	m := &msg{id: "q" + x, str: "rs"}
	d.field("msgid", "q", x)
	d.field("msgstr", "r", "s")
	d.has(m)
	d.line("# last")
	at := sym.Choose(len(d.lines) + 1)
	crs := strings.Repeat("\r", 1+sym.Choose(3))
	for i := range d.lines {
		if i == at || at == len(d.lines) {
			d.lines[i] += crs
		}
	}
	c17read(d.text([]string{"\n", "\r\n", "\r\r\n"}[sym.Choose(3)], sym.Choose(3)*2, sym.Choose(2) == 1), d.ms)
}

// H_C17_index: the forms of a message stand in their order, each once: a line with
// another index is an error.
func H_C17_index() {
	d := new(poDoc)
	m := &msg{id: "a", plural: true, id2: "as"}
	k := sym.Choose(4)
	for i := 0; i < k; i++ {
		m.strN = append(m.strN, plain(1))
	}
	d.add(m)
	j := sym.Choose(k + 4)
	if j == k {
		return
	}
	switch sym.Choose(3) {
	case 1:
		d.line("\"" + plain(1) + "\"")
	case 2:
		d.line("")
	}
	d.field("msgstr["+itoa(j)+"]", plain(1))
	if sym.Choose(2) == 1 {
		d.field("msgstr["+itoa(k)+"]", "x")
	}
	d.add(&msg{id: "b", str: "z"})
	_, err := translator.ReadPo([]byte(d.text("\n", -1, true)))
	sym.Assert(err != nil, "form with the wrong index accepted")
}
