package h

import (
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// c14check reads the bytes as any MO reader would.
func c14check(f *translator.File, ms []*msg) {
	b := saveMo(f)
	sym.ObserveInt("size", int64(len(b)))
	if len(b) < 28 {
		sym.Fail("no header")
		return
	}
	sym.Assert(get32(b, 0) == 0x950412de, "magic number")
	sym.Assert(get32(b, 4) == 0, "revision")
	n := int(get32(b, 8))
	sym.Assert(n == len(ms), "number of strings")
	if n != len(ms) {
		return
	}
	o, t := int(get32(b, 12)), int(get32(b, 16))
	sym.Assert(get32(b, 20) == 0, "hash table") // none is written
	if o < 28 || t < 28 || o+8*n > len(b) || t+8*n > len(b) || n > 0 && o < t+8*n && t < o+8*n {
		sym.Fail("tables outside the file or overlapping")
		return
	}
	ends := map[int]int{}
	str := func(at int) string {
		l, p := int(get32(b, at)), int(get32(b, at+4))
		if p < 28 || p+l >= len(b) {
			sym.Fail("string outside the file")
			return ""
		}
		if p < o+8*n && o < p+l+1 || p < t+8*n && t < p+l+1 {
			sym.Fail("string overlaps a table")
		}
		for q, e := range ends {
			if p < e && q < p+l+1 {
				sym.Fail("strings overlap")
			}
		}
		ends[p] = p + l + 1
		sym.Assert(b[p+l] == 0, "string not terminated")
		return string(b[p : p+l])
	}
	last := ""
	for i := 0; i < n; i++ {
		k := str(o + 8*i)
		v := str(t + 8*i)
		sym.Assert(i == 0 || last < k, "ids not in ascending order")
		last = k
		found := false
		for _, m := range ms {
			if m.key() == k {
				found = true
				sym.Assert(v == m.val(), "translation of another message")
			}
		}
		sym.Assert(found, "unknown id")
	}
}

// H_C14_two: all shapes of two messages, with and without header.
func H_C14_two() {
	var ms []*msg
	if sym.Choose(2) == 1 {
		ms = append(ms, &msg{str: header2})
	}
	max := 1
	if sym.Thorough() {
		max = 2
	}
	ms = append(ms, symMsg(max), symMsg(1))
	distinct(ms)
	c14check(fileOf(ms), ms)
}

// H_C14_order: three messages with source references that do not follow the ids.
func H_C14_order() {
	sym.MapOrder(true)
	ms := []*msg{{str: "Language: xx\n"}}
	f := fileOf(ms)
	max := 1
	if sym.Thorough() {
		max = 2
	}
	for i := 0; i < 3; i++ {
		m := &msg{id: clean(1+sym.Choose(max), true), str: string(rune('A' + i))}
		if i == 2 {
			m.ctx = clean(1, true)
		}
		ms = append(ms, m)
		e := m.entry()
		if sym.Choose(2) == 1 {
			e.MsgCmts = []string{"#: a.go:" + string(rune('9'-i))}
		}
		distinct(ms)
		f.AddEntry(e)
	}
	c14check(f, ms)
}

// H_C14_prefix: ids that are prefixes of each other's ids, contexts or plurals.
func H_C14_prefix() {
	a := clean(1, true)
	ms := []*msg{
		{id: a, id2: clean(1, false), plural: true, strN: []string{"x", "y"}},
		{id: a + clean(1, true), str: "z"},
		{ctx: a, id: clean(1, false), str: "w"},
	}
	distinct(ms)
	c14check(fileOf(ms), ms)
}

// H_C14_empty: an empty catalogue.
func H_C14_empty() { c14check(new(translator.File), nil) }

// H_C14_long: longer strings.
func H_C14_long() {
	max := 10
	if sym.Thorough() {
		max = 300
	}
	ms := []*msg{{str: header2}, {id: clean(3, true), str: clean(sym.Choose(max), false)}}
	c14check(fileOf(ms), ms)
}

// H_C14_many: more messages than a few, with longer symbolic strings, added in an
// order that is not that of their ids.
func H_C14_many() {
	n := []int{6, 9, 14}[sym.Choose(3)]
	ms := []*msg{{str: "Language: ar\nPlural-Forms: nplurals=6; plural=" + arabic + ";\n"}}
	for i := 0; i < n; i++ {
		m := &msg{id: string(rune('a'+(i*5)%n)) + clean(3, true)}
		switch i % 3 {
		case 0:
			m.str = clean(4, false)
		case 1:
			m.ctx, m.str = string(rune('a'+(i*3)%n))+clean(2, true), clean(1+i, false)
		case 2:
			m.plural, m.id2 = true, clean(2, false)
			for j := 0; j <= i%6; j++ {
				m.strN = append(m.strN, clean(j, false))
			}
		}
		ms = append(ms, m)
	}
	f := fileOf(ms)
	c14check(f, ms)
}

// H_C14_size: sizes the code mentions.
func H_C14_size() {
	ms := sizedMsgs(70000)
	c14check(fileOf(ms), ms)
}

// H_C14_words: texts of the code.
func H_C14_words() {
	ms := wordMsgs()
	c14check(fileOf(ms), ms)
}
