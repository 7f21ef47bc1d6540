package h

import (
	"strings"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// c11check reads an image; first is the count that selects the first form.
func c11check(b []byte, ms []*msg, first int) *translator.File {
	f, err := translator.ReadMo(b)
	if err != nil {
		sym.Fail("well-formed MO file refused")
		return nil
	}
	sameMessages(f, ms)
	for _, m := range ms {
		if !m.plural && m.ctx == "" && m.id == "" {
			continue
		}
		if !m.plural {
			sym.Assert(f.X(m.ctx, m.id) == m.answer(), "lookup")
			sym.ObserveStr("str", m.str)
			continue
		}
		for i, s := range m.strN {
			want := s
			if s == "" {
				if want = m.id2; i+first == 1 || m.id2 == "" {
					want = m.id
				}
			}
			if m.ctx == "" && m.id == "" {
				continue
			}
			sym.Assert(f.XN64(m.ctx, m.id, m.id2, int64(i+first)) == want, "plural lookup")
		}
	}
	return f
}

// H_C11_two: header and two messages in every layout and both byte orders.
func H_C11_two() {
	ms := []*msg{{str: header2}}
	max := 1
	if sym.Thorough() {
		max = 2
	}
	for i := 0; i < 2; i++ {
		ms = append(ms, symMsg(max))
	}
	distinct(ms)
	big := sym.Choose(2) == 1
	lay := 3 * sym.Choose(2)
	if sym.Thorough() {
		lay = sym.Choose(len(moOrders))
	}
	f := c11check(moImage(ms, big, moOrders[lay], 0, false), ms, 1)
	if f != nil {
		sym.Assert(f.Lang() == "zh_CN", "language")
	}
}

// H_C11_layout: fixed messages, every layout, gap, storage and table order.
func H_C11_layout() {
	ms := []*msg{{str: header2}, {id: "a", str: clean(3, false)}, {ctx: "c", id: "a", id2: "as", plural: true, strN: []string{clean(1, false), clean(2, false)}}, {id: "b\x01", str: "x\ny\xff"}}
	switch sym.Choose(4) { // table order
	case 1:
		ms[0], ms[3] = ms[3], ms[0]
	case 2:
		ms[1], ms[2] = ms[2], ms[1]
	case 3:
		ms = append(ms[2:4:4], ms[0], ms[1])
	}
	big := sym.Choose(2) == 1
	b := moImage(ms, big, moOrders[sym.Choose(len(moOrders))], sym.Choose(3)*3, sym.Choose(2) == 1)
	for i := 20; i < 28; i++ { // the hash table is optional: ignored
		b[i] = sym.Byte()
	}
	b = append(b, sym.Bytes(sym.Choose(2))...)
	c11check(b, ms, 1)
}

// H_C11_revision: revisions 0.0 to 1.1 are read.
func H_C11_revision() {
	ms := []*msg{{str: header2}, {id: "a", str: clean(1, false)}}
	big := sym.Choose(2) == 1
	b := moImage(ms, big, moOrders[0], 0, false)
	put32(b, 4, uint32(sym.Choose(2))<<16|uint32(sym.Choose(2)), big)
	c11check(b, ms, 1)
}

// H_C11_empty: no messages at all.
func H_C11_empty() {
	b := moImage(nil, sym.Choose(2) == 1, moOrders[0], 0, false)
	f := c11check(b, nil, 1)
	id := name(2)
	if f != nil {
		sym.Assert(f.X("", id) == id && f.Lang() == "", "lookup in an empty catalogue")
	}
}

// H_C11_long: longer strings, and ids with several EOT bytes.
func H_C11_long() {
	max := 6
	if sym.Thorough() {
		max = 40
	}
	m := &msg{ctx: clean(1+sym.Choose(2), true), id: clean(3, false), str: clean(1+sym.Choose(max), false)}
	p := &msg{id: clean(1+sym.Choose(3), true), id2: clean(sym.Choose(4), false), plural: true}
	for i, k := 0, 1+sym.Choose(4); i < k; i++ {
		p.strN = append(p.strN, clean(1+i%2, false))
	}
	ms := []*msg{{str: "Plural-Forms: nplurals=6; plural=" + arabic + ";\n"}, m, p}
	distinct(ms)
	c11check(moImage(ms, sym.Choose(2) == 1, moOrders[0], 0, false), ms, 0)
}

// H_C11_shared: strings may share storage.
func H_C11_shared() {
	big := sym.Choose(2) == 1
	s := clean(3, true)
	b := moImage([]*msg{{id: "x", str: s}, {id: "y", str: s}}, big, moOrders[0], 0, false)
	t := 28 + 16
	for i := 0; i < 4; i++ { // the second translation is the first one's tail
		b[t+8+i] = 0
		b[t+12+i] = b[t+4+i]
	}
	if big {
		b[t+11]++
		b[t+15] += 2
	} else {
		b[t+8]++
		b[t+12] += 2
	}
	x, y := "x", "y"
	if sym.Choose(2) == 1 { // and the second id the first one's tail
		x, y = clean(3, true), ""
		ms := []*msg{{id: x, str: s}, {id: x[1:], str: "t"}}
		distinct(ms)
		b = moImage(ms, big, moOrders[sym.Choose(len(moOrders))], 0, false)
		o := int(b[12]) + int(b[15])
		if big {
			o = int(b[15])
		} else {
			o = int(b[12])
		}
		copy(b[o+8:], b[o:o+8])
		if big {
			b[o+11]--
			b[o+15]++
		} else {
			b[o+8]--
			b[o+12]++
		}
		c11check(b, ms, 1)
		return
	}
	c11check(b, []*msg{{id: x, str: s}, {id: y, str: s[2:]}}, 1)
}

// H_C11_overlap: strings that begin at one place and have different lengths, or lie
// inside each other: a translation that is one of the forms of another message, forms
// that are some of another message's, an id that is another message's plural id.
func H_C11_overlap() {
	big := sym.Choose(2) == 1
	head := &msg{str: "Plural-Forms: nplurals=6; plural=" + arabic + ";\n"}
	form := []string{clean(1, true), clean(2, false), clean(1, true)}
	p := &msg{id: "x", id2: "p" + clean(1, true), plural: true, strN: form}
	y := &msg{id: "y", str: "?"}
	z := &msg{id: "z", id2: "z", plural: true, strN: []string{"?", "?"}}
	order := moOrders[sym.Choose(len(moOrders))]
	b := moImage([]*msg{head, p, y, z}, big, order, 0, false)
	at := func(i int) int {
		if big {
			return int(b[i+2])<<8 | int(b[i+3])
		}
		return int(b[i+1])<<8 | int(b[i])
	}
	ids, strs := at(12), at(16)
	set := func(table, i, off, n int) {
		put32(b, table+8*i, uint32(n), big)
		put32(b, table+8*i+4, uint32(off), big)
	}
	off, k := at(strs+12), sym.Choose(3)
	from := []int{0, 2, 5}[k]
	set(strs, 2, off+from, len(form[k]))
	y.str = form[k]
	switch sym.Choose(3) {
	case 0:
		set(strs, 3, off, 4)
		z.strN = form[:2]
	case 1:
		set(strs, 3, off+2, 4)
		z.strN = form[1:]
	case 2:
		set(strs, 3, off, 6)
		z.strN = form
	}
	if sym.Choose(2) == 1 {
		set(ids, 2, at(ids+12)+2, len(p.id2))
		y.id = p.id2
	}
	c11check(b, []*msg{head, p, y, z}, 0)
}

// H_C11_many: many messages with longer strings.
func H_C11_many() {
	n := []int{8, 20}[sym.Choose(2)]
	big := sym.Choose(2) == 1
	ms := []*msg{{str: header2}}
	for i := 0; i < n; i++ {
		m := &msg{id: string([]byte{'a' + byte(i*3%n)}) + clean(i%4, true)}
		switch i % 3 {
		case 0:
			m.str = clean(1+i, false)
		case 1:
			m.ctx, m.str = string([]byte{'a' + byte(i)})+clean(2, true), clean(3, false)
		case 2:
			m.plural, m.id2 = true, clean(i%4, false)
			for j := 0; j < 2; j++ {
				m.strN = append(m.strN, clean((i+j)%3, false))
			}
		}
		ms = append(ms, m)
	}
	k := sym.Choose(len(moOrders))
	c11check(moImage(ms, big, moOrders[k], k%3, k%2 == 1), ms, 1)
}

// H_C11_size: strings, forms and tables of the sizes the code mentions.
func H_C11_size() {
	big := sym.Choose(2) == 1
	ms := []*msg{{str: header2}}
	x := letters(1)
	switch sym.Choose(5) {
	case 0:
		ms = append(ms, &msg{id: sized(sym.Size("translator", 2, 70000), x), str: "s"}, &msg{id: "q", str: "r"})
	case 1:
		ms = append(ms, &msg{ctx: sized(sym.Size("translator", 2, 70000), x), id: "i", str: "s"}, &msg{id: "i", str: "r"})
	case 2:
		ms = append(ms, &msg{id: "i", str: sized(sym.Size("translator", 2, 70000), x)}, &msg{id: "q", str: "r"})
	case 3:
		k := sym.Size("translator", 1, 40+100*b2int(sym.Thorough()))
		m := &msg{id: "i", id2: sized(k, x), plural: true}
		for i := 0; i < k; i++ {
			m.strN = append(m.strN, x+itoa(i))
		}
		ms = append(ms, m)
		ms[0].str = "Plural-Forms: nplurals=" + itoa(k) + "; plural=n-1;\n"
	case 4:
		k := sym.Size("translator", 1, 40+300*b2int(sym.Thorough()))
		for i := 0; i < k; i++ {
			ms = append(ms, &msg{id: "m" + itoa(i), str: x + itoa(i)})
		}
	}
	c11check(moImage(ms, big, moOrders[sym.Choose(2)], 0, false), ms, 1)
}

// H_C11_words: texts of the code as ids, contexts and translations.
func H_C11_words() {
	w := sym.Word("translator", "any", 80)
	if w == "" || strings.Contains(w, "\x00") || strings.Contains(w, "\x04") {
		return
	}
	ms := []*msg{{str: header2}, {id: w, str: "id"}, {ctx: w, id: "a", str: "ctx"}, {id: "a", str: w}, {id: "p", id2: w, plural: true, strN: []string{w, "x" + w}}, {ctx: w, id: w, str: w + w}}
	if sym.Choose(2) == 1 {
		ms[0], ms[5] = ms[5], ms[0]
	}
	distinct(ms)
	c11check(moImage(ms, sym.Choose(2) == 1, moOrders[0], 0, false), ms, 1)
}
