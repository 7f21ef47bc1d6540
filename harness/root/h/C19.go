package h

import (
	"strings"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

type ref struct {
	file string
	line int
	col  int // 0: none
}

func (r *ref) String() string {
	s := "#: " + r.file + ":" + itoa(r.line)
	if r.col > 0 {
		s += ":" + itoa(r.col)
	}
	return s
}

var c19perms = [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 0, 1, 2}, {1, 2, 3, 0}}

func permuted(ms []*msg, p []int) *translator.File {
	f := new(translator.File)
	for _, i := range p {
		if i < len(ms) {
			f.AddEntry(ms[i].entry())
		}
	}
	return f
}

func save(f *translator.File, kind int) string {
	switch kind {
	case 0:
		return string(savePo(f))
	case 1:
		return string(savePot(f))
	}
	return string(saveMo(f))
}

// keyChars is a string for a context or id; quoting makes arbitrary bytes costly.
func keyChars(n, kind int) string {
	if kind == 2 {
		s := sym.String(n)
		noEOT(s)
		return s
	}
	return sym.StringIn(n, "a!\x05\xe9")
}

// sameOutput: two insertion orders and every iteration order give the same bytes.
func sameOutput(ms []*msg, perms, kind int) {
	p := c19perms[1+sym.Choose(perms)]
	f, g := permuted(ms, c19perms[0]), permuted(ms, p)
	a := save(f, kind)
	sym.MapOrder(true)
	b := save(g, kind)
	sym.ObserveStr("out", a)
	sym.Assert(a == b, "output depends on the order of insertion or iteration")
}

// H_C19_keys: contexts and ids that are hard to tell apart.
func H_C19_keys() {
	max, k := 1, 2
	kind := sym.Choose(3)
	if sym.Thorough() {
		max = 2 - b2int(kind == 2)
	}
	var ms []*msg
	for i := 0; i < k; i++ {
		m := &msg{ctx: keyChars(sym.Choose(max+1), kind), str: string(rune('A' + i))}
		m.id = keyChars(b2int(m.ctx == "")+sym.Choose(max+b2int(m.ctx != "")), kind)
		if i == 0 && sym.Choose(2) == 1 {
			m.plural, m.id2, m.str, m.strN = true, "p", "", []string{"x", "y"}
		}
		ms = append(ms, m)
	}
	distinct(ms)
	sameOutput(ms, 1, kind)
}

// H_C19_refs: entries with references in every insertion and iteration order.
func H_C19_refs() {
	ms := []*msg{{str: "Language: xx\n"}}
	for i := 0; i < 2+b2int(sym.Thorough()); i++ {
		m := &msg{id: "id" + string(rune('0'+i)), str: "T"}
		switch sym.Choose(4) {
		case 1:
			m.cmts = []string{"#: a.go:9"}
		case 2:
			m.cmts = []string{"# x", "#: a.go:" + sym.StringIn(1, "19") + sym.StringIn(1, "09")}
		case 3:
			m.cmts = []string{"#: b.go:1 a.go:2"}
		}
		if i > 0 && sym.Choose(2) == 1 {
			m.id, m.ctx = ms[i].id, "c"
		}
		ms = append(ms, m)
	}
	distinct(ms)
	sameOutput(ms, len(c19perms)-1-3*b2int(sym.Thorough()), sym.Choose(3-b2int(sym.Thorough())))
}

// before reports whether reference a sorts before b.
func before(a, b *ref) bool {
	if a.file != b.file {
		return a.file < b.file
	}
	if a.line != b.line {
		return a.line < b.line
	}
	return a.col < b.col
}

// H_C19_order: the header first, then by reference, then by context and id.
func H_C19_order() {
	sym.MapOrder(true)
	digits := []int{2, 10, 1234567}
	k := 2
	if sym.Thorough() {
		k = 3
		digits = []int{2, 10}
	}
	var ms []*msg
	var rs []*ref
	for i := 0; i < k; i++ {
		f := byte('m')
		if i < 2 {
			f = sym.Byte()
		}
		sym.Assume(f > ' ' && f < 0x7f && f != ':' && (f < '0' || f > '9'))
		r := &ref{file: string([]byte{f}) + []string{"", ".go"}[sym.Choose(1+b2int(i == 0))], line: digits[sym.Choose(len(digits))]}
		if k == 2 && sym.Choose(2) == 1 {
			r.col = 5 + 10*(i&1)
		}
		rs = append(rs, r)
		m := &msg{ctx: []string{"", "x"}[sym.Choose(2)], id: sym.StringIn(1, "ab"), str: "T", cmts: []string{r.String()}}
		ms = append(ms, m)
	}
	distinct(ms)
	f := fileOf(ms)
	h := &msg{str: "Language: xx\n", cmts: []string{"#: z.go:99"}}
	f.AddEntry(h.entry())
	es := f.SortedEntry()
	sym.Assert(len(es) == k+1, "number of entries")
	sym.Assert(es[0].MsgID == "" && es[0].MsgCtxt == "", "header is not first")
	at := func(e *translator.Entry) int {
		for i, m := range ms {
			if m.ctx == e.MsgCtxt && m.id == e.MsgID {
				return i
			}
		}
		sym.Fail("unknown entry")
		return 0
	}
	for i := 1; i < k; i++ {
		x, y := at(es[i]), at(es[i+1])
		a, b := rs[x], rs[y]
		switch {
		case before(a, b):
		case before(b, a):
			sym.Fail("not ordered by reference")
		case ms[x].ctx != ms[y].ctx:
			sym.Assert(ms[x].ctx < ms[y].ctx, "not ordered by context")
		default:
			sym.Assert(ms[x].id < ms[y].id, "not ordered by id")
		}
	}
}

// H_C19_header: the header comes first in all three formats, whatever the others are.
func H_C19_header() {
	sym.MapOrder(true)
	kind := sym.Choose(3)
	m := &msg{ctx: keyChars(sym.Choose(2), kind), id: keyChars(1, kind), str: "T"}
	switch sym.Choose(3) {
	case 0:
		m.cmts = []string{"#: " + sym.StringIn(1, " !:0") + ":1"}
	case 1:
		m.cmts = []string{"#:"}
	}
	h := &msg{str: "Language: xx\n"}
	if sym.Choose(2) == 1 {
		h.cmts = []string{"# T", "#: z:9"}
	}
	ms := []*msg{m, h}
	f := permuted(ms, c19perms[sym.Choose(2)*2])
	switch kind {
	case 2:
		b := saveMo(f)
		sym.Assert(get32(b, int(get32(b, 12))) == 0, "header is not first in the MO file")
	default:
		g, err := translator.ReadPot([]byte(save(f, kind)))
		sym.Assert(err == nil, "cannot be read back")
		want := ""
		for _, c := range h.cmts {
			want += c + "\n"
		}
		text := save(f, kind)
		want += "msgid \"\"\n"
		sym.Assert(len(text) > len(want) && text[:len(want)] == want, "header is not first")
		_ = g
	}
}

// H_C19_second: messages that share their first reference are ordered by the next.
func H_C19_second() {
	sym.MapOrder(true)
	digits := []int{2, 10, 123}
	var ms []*msg
	var rs []*ref
	sep := []string{" ", "\n#: ", "\n# note\n#: "}[sym.Choose(3)]
	first := []string{"#: a.go:3", "#: a.go:3 a.go:12", "#: a.go:3:7"}[sym.Choose(3)]
	for i := 0; i < 2; i++ {
		f := sym.Byte()
		sym.Assume(f >= 'a')
		sym.Assume(f <= 'z')
		r := &ref{file: string([]byte{f}), line: digits[sym.Choose(len(digits))]}
		rs = append(rs, r)
		ms = append(ms, &msg{id: []string{"x", "a"}[i], str: "T", cmts: strings.Split(first+sep+r.String()[3:], "\n")})
	}
	es := permuted(ms, c19perms[sym.Choose(2)*2]).SortedEntry()
	sym.Assert(len(es) == 2, "number of entries")
	switch {
	case before(rs[0], rs[1]):
		sym.Assert(es[0].MsgID == "x", "not ordered by the second reference")
	default:
		sym.Assert(es[0].MsgID == "a", "not ordered by the second reference, then by id")
	}
}

// H_C19_many: catalogues of many entries in very different orders.
func H_C19_many() {
	n := []int{8, 14, 26}[sym.Choose(2+b2int(sym.Thorough()))]
	kind := sym.Choose(3)
	x := sym.StringIn(1, "ab")
	var ms []*msg
	for i := 0; i < n; i++ {
		m := &msg{id: "id" + string([]byte{'a' + byte(i*5%n)}), str: "T"}
		switch i % 4 {
		case 0:
			m.cmts = []string{"#: " + x + ".go:" + itoa(i*i*37%211)}
		case 1:
			m.cmts = []string{"# note", "#: b.go:" + itoa(i*i*37%211) + " a.go:7"}
		case 2:
			m.ctx = x + string([]byte{'a' + byte(i*3%n)})
		}
		if i%5 == 3 {
			m.plural, m.id2, m.str, m.strN = true, "p", "", []string{"x", "y"}
		}
		ms = append(ms, m)
	}
	ms = append(ms, &msg{str: "Language: xx\n"})
	f, g := new(translator.File), new(translator.File)
	step := []int{1, n, 2, 7}[sym.Choose(4)] // prime to n+1, the number of entries
	for i := range ms {
		f.AddEntry(ms[i].entry())
		g.AddEntry(ms[(i*step+step/2)%len(ms)].entry())
	}
	a := save(f, kind)
	sym.Assert(save(g, kind) == a, "output depends on the order of insertion")
	sym.Assert(save(f, kind) == a, "saving again gives another output")
	sym.ObserveStr("out", a)
	if kind == 2 {
		return
	}
	sym.Assert(strings.HasPrefix(a, "msgid \"\"\n"), "header is not first")
	es := f.SortedEntry()
	sym.Assert(len(es) == n+1, "number of entries")
	file := func(e *translator.Entry) (string, int) { // the first reference
		for _, c := range e.MsgCmts {
			if strings.HasPrefix(c, "#: ") {
				c = c[3:]
				l := 0
				for i := 5; i < len(c) && c[i] != ' '; i++ {
					l = l*10 + int(c[i]-'0')
				}
				return c[:4], l
			}
		}
		return "", 0
	}
	for i := 1; i < n; i++ {
		p, q := es[i], es[i+1]
		pf, pl := file(p)
		qf, ql := file(q)
		switch {
		case pf != qf:
			sym.Assert(pf < qf, "not ordered by file name")
		case pl != ql:
			sym.Assert(pl < ql, "not ordered by line number")
		case pf == "" && p.MsgCtxt != q.MsgCtxt:
			sym.Assert(p.MsgCtxt < q.MsgCtxt, "not ordered by context")
		case pf == "":
			sym.Assert(p.MsgID < q.MsgID, "not ordered by id")
		}
	}
}

// H_C19_size: references, contexts and ids of the sizes the code mentions, and as
// many entries or references.
func H_C19_size() {
	kind := sym.Choose(3)
	h := &msg{str: "Language: xx\n"}
	a, b := &msg{id: "a", str: "T"}, &msg{id: "b", str: "T"}
	ms := []*msg{a, h, b}
	first := "a"
	switch sym.Choose(6) {
	case 0: // line numbers
		k := sym.Size("translator", 1, 100000)
		a.cmts, b.cmts = []string{"#: f.go:" + itoa(k+1)}, []string{"#: f.go:" + itoa(k)}
		first = "b"
	case 1: // long file names
		k := sym.Size("translator", 1, 3000)
		a.cmts, b.cmts = []string{"#: " + strings.ReplaceAll(sized(k, "q"), " ", "_") + ".go:1"}, []string{"#: " + strings.ReplaceAll(sized(k, "p"), " ", "_") + ".go:2"}
		first = "b"
	case 2: // long contexts
		k := sym.Size("translator", 1, 3000)
		a.ctx, b.ctx = sized(k, "q"), sized(k, "p")
		first = "b"
	case 3: // long ids
		k := sym.Size("translator", 1, 3000)
		a.id, b.id = sized(k, "q"), sized(k, "p")
		first = b.id
	case 4: // references in one comment, and comments
		k := sym.Size("translator", 1, 40)
		c := "#:" + strings.Repeat(" f.go:7", k)
		a.cmts, b.cmts = []string{c + " g.go:2"}, []string{c + " g.go:1"}
		if sym.Choose(2) == 1 {
			a.cmts, b.cmts = []string{c, "#: g.go:2"}, []string{c, "#: g.go:1"}
		}
		first = "b"
	case 5: // columns
		k := sym.Size("translator", 1, 100000)
		a.cmts, b.cmts = []string{"#: f.go:5:" + itoa(k+1)}, []string{"#: f.go:5:" + itoa(k)}
		first = "b"
	}
	f, g := permuted(ms, c19perms[0]), permuted(ms, []int{2, 0, 1})
	s := save(f, kind)
	sym.Assert(save(g, kind) == s, "output depends on the order of insertion or iteration")
	sym.MapOrder(true)
	es := f.SortedEntry()
	sym.Assert(len(es) == 3, "number of entries")
	sym.Assert(es[0].MsgID == "" && es[0].MsgCtxt == "", "header is not first")
	sym.Assert(es[1].MsgID == first, "order")
}

// H_C19_words: texts of the code as contexts, ids and comments.
func H_C19_words() {
	w := sym.Word("translator", "any", 60)
	if w == "" || strings.ContainsAny(w, "\n\r\x00\x04") {
		return
	}
	h := &msg{str: "Language: xx\n"}
	a, b := &msg{id: "a", str: "T"}, &msg{id: "b", str: "T"}
	switch sym.Choose(4) {
	case 0:
		a.cmts = []string{"#" + w}
	case 1:
		a.cmts = []string{"# x", "#: " + w, "#: b.go:1"}
		b.cmts = []string{"#: c.go:1"}
	case 2:
		a.ctx, b.id = w, "x"+w
	case 3:
		a.id, b.id, b.ctx = w, w+w, w
	}
	ms := []*msg{a, h, b}
	sameOutput(ms, 2, sym.Choose(3))
}
