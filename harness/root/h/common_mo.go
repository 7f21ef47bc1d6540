package h

import (
	"bytes"
	"strings"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// msg is one message of a catalogue.
type msg struct {
	ctx, id, id2 string
	plural       bool
	str          string
	strN         []string
	cmts         []string
}

// key is the id field a message has in an MO file.
func (m *msg) key() string {
	k := m.id
	if m.ctx != "" {
		k = m.ctx + "\x04" + k
	}
	if m.plural {
		k += "\x00" + m.id2
	}
	return k
}

func (m *msg) val() string {
	if !m.plural {
		return m.str
	}
	v := ""
	for i, s := range m.strN {
		if i > 0 {
			v += "\x00"
		}
		v += s
	}
	return v
}

func (m *msg) entry() *translator.Entry {
	return &translator.Entry{MsgCmts: m.cmts, MsgCtxt: m.ctx, MsgID: m.id, MsgID2: m.id2, IsPlural: m.plural, MsgStr: m.str, MsgStrN: m.strN}
}

// clean is a string without the bytes the MO format reserves.
func clean(n int, alsoEOT bool) string {
	s := sym.String(n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != 0)
		if alsoEOT {
			sym.Assume(s[i] != 4)
		}
	}
	return s
}

const header2 = "Language: zh_CN\nX-Foo: bar\nPlural-Forms: nplurals=2; plural=n != 1;\n"

// symMsg is a message with symbolic strings of up to max bytes.
func symMsg(max int) *msg {
	m := &msg{plural: sym.Choose(2) == 1}
	if sym.Choose(2) == 1 {
		m.ctx = clean(1+sym.Choose(max), true)
	}
	n := sym.Choose(max + 1)
	if m.ctx == "" && n == 0 {
		n = 1
	}
	m.id = clean(n, m.ctx == "")
	if m.plural {
		m.id2 = clean(sym.Choose(max+1), false)
		for i, k := 0, 1+sym.Choose(2); i < k; i++ {
			m.strN = append(m.strN, clean(sym.Choose(max+1), false))
		}
	} else {
		m.str = clean(sym.Choose(max+1), false)
	}
	return m
}

// answer is what looking a singular message up gives.
func (m *msg) answer() string {
	if m.str == "" {
		return m.id
	}
	return m.str
}

func distinct(ms []*msg) {
	for i := range ms {
		for j := 0; j < i; j++ {
			sym.Assume(ms[i].ctx+"\x04"+ms[i].id != ms[j].ctx+"\x04"+ms[j].id)
		}
	}
}

// withComments makes sameMessages compare comments too.
var withComments = false

// sameMessages checks that a catalogue has exactly these messages.
func sameMessages(f *translator.File, ms []*msg) {
	es := f.SortedEntry()
	sym.Assert(len(es) == len(ms), "number of messages")
	for _, m := range ms {
		found := false
		for _, e := range es {
			if e.MsgCtxt != m.ctx || e.MsgID != m.id {
				continue
			}
			found = true
			if withComments {
				sym.Assert(len(e.MsgCmts) == len(m.cmts), "number of comments")
				for i := range m.cmts {
					if i < len(e.MsgCmts) {
						sym.Assert(e.MsgCmts[i] == m.cmts[i], "comment")
					}
				}
			}
			sym.Assert(e.IsPlural == m.plural, "plural or not")
			sym.Assert(e.MsgID2 == m.id2, "plural id")
			if m.plural {
				sym.Assert(len(e.MsgStrN) == len(m.strN), "number of plural forms")
				for i := range m.strN {
					if i < len(e.MsgStrN) {
						sym.Assert(e.MsgStrN[i] == m.strN[i], "plural form")
					}
				}
			} else {
				sym.Assert(e.MsgStr == m.str, "translation")
				sym.Assert(len(e.MsgStrN) == 0, "plural forms of a singular message")
			}
		}
		sym.Assert(found, "message missing")
	}
}

// put32 stores a 32-bit value.
func put32(b []byte, at int, v uint32, big bool) {
	for i := 0; i < 4; i++ {
		s := 8 * i
		if big {
			s = 24 - s
		}
		b[at+i] = byte(v >> s)
	}
}

func get32(b []byte, at int) uint32 {
	return uint32(b[at]) | uint32(b[at+1])<<8 | uint32(b[at+2])<<16 | uint32(b[at+3])<<24
}

// moImage lays an MO file out: order gives the order of the sections (0 id
// table, 1 translation table, 2 ids, 3 translations), gap the bytes between
// them, rev whether strings are stored in reverse order.
func moImage(ms []*msg, big bool, order [4]int, gap int, rev bool) []byte {
	n := len(ms)
	var keys, vals []string
	for _, m := range ms {
		keys, vals = append(keys, m.key()), append(vals, m.val())
	}
	sizes := [4]int{8 * n, 8 * n, 0, 0}
	for i := range ms {
		sizes[2] += len(keys[i]) + 1
		sizes[3] += len(vals[i]) + 1
	}
	var at [4]int
	off := 28
	for _, s := range order {
		off += gap
		at[s] = off
		off += sizes[s]
	}
	b := make([]byte, off)
	put32(b, 0, 0x950412de, big)
	put32(b, 8, uint32(n), big)
	put32(b, 12, uint32(at[0]), big)
	put32(b, 16, uint32(at[1]), big)
	for k, list := range [2][]string{keys, vals} {
		p := at[2+k]
		for j := range list {
			i := j
			if rev {
				i = len(list) - 1 - j
			}
			put32(b, at[k]+8*i, uint32(len(list[i])), big)
			put32(b, at[k]+8*i+4, uint32(p), big)
			copy(b[p:], list[i])
			p += len(list[i]) + 1
		}
	}
	return b
}

var moOrders = [][4]int{{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}, {0, 2, 1, 3}, {2, 0, 3, 1}}

const arabic = "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"

// saveMo saves a catalogue as MO.
func saveMo(f *translator.File) []byte {
	var buf bytes.Buffer
	if err := f.SaveAsMo(&buf); err != nil {
		sym.Fail("saving as MO failed")
	}
	return buf.Bytes()
}

func fileOf(ms []*msg) *translator.File {
	f := new(translator.File)
	for _, m := range ms {
		f.AddEntry(m.entry())
	}
	return f
}

// sizedMsgs is a catalogue in which something has a size the code mentions.
func sizedMsgs(max int) []*msg {
	ms := []*msg{{str: header2}}
	x := letters(1)
	switch sym.Choose(6) {
	case 0:
		k := sym.Size("translator", 2, max)
		ms = append(ms, &msg{id: sized(k, x), str: "s"}, &msg{id: sized(k, "0"), str: "r"})
	case 1:
		k := sym.Size("translator", 1, max)
		ms = append(ms, &msg{ctx: sized(k, x), id: "i", str: "s"}, &msg{ctx: sized(k, "0"), id: "i", str: "r"})
	case 2:
		ms = append(ms, &msg{id: "i", str: sized(sym.Size("translator", 1, max), x)}, &msg{id: "q", str: "r"})
	case 3:
		m := &msg{id: "i", id2: x, plural: true}
		for i, k := 0, sym.Size("translator", 1, 40+100*b2int(sym.Thorough())); i < k; i++ {
			m.strN = append(m.strN, x+itoa(i))
		}
		ms = append(ms, m, &msg{id: "j", str: "s"})
	case 4:
		k := sym.Size("translator", 1, max)
		ms = append(ms, &msg{id: "i", id2: sized(k, x), plural: true, strN: []string{"a", sized(k, x)}}, &msg{id: "q", str: "r"})
	case 5:
		for i, k := 0, sym.Size("translator", 1, 30+300*b2int(sym.Thorough())); i < k; i++ {
			ms = append(ms, &msg{id: "m" + itoa(i), str: x + itoa(i)})
		}
	}
	return ms
}

// wordMsgs is a catalogue with a text of the code in every field.
func wordMsgs() []*msg {
	w := sym.Word("translator", "any", 80)
	sym.Assume(w != "")
	sym.Assume(!strings.ContainsAny(w, "\x00\x04"))
	if sym.Choose(2) == 1 {
		w = "x " + w + "y\n"
	}
	ms := []*msg{{str: header2}, {id: w, str: "id"}, {ctx: w, id: "a", str: "ctx"}, {id: "a", str: w}, {id: "p", id2: w, plural: true, strN: []string{w, "x" + w}}, {ctx: w, id: w, str: w + w}}
	distinct(ms)
	return ms
}
