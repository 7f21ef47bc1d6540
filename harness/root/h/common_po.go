package h

import (
	"bytes"
	"strings"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// savePo saves a catalogue as PO text.
func savePo(f *translator.File) []byte {
	var buf bytes.Buffer
	if err := f.SaveAsPo(&buf); err != nil {
		sym.Fail("saving as PO failed")
	}
	return buf.Bytes()
}

// savePot saves a catalogue as a template.
func savePot(f *translator.File) []byte {
	var buf bytes.Buffer
	if err := f.SaveAsPot(&buf); err != nil {
		sym.Fail("saving as POT failed")
	}
	return buf.Bytes()
}

// put stores s in one of the string fields of a message (or the header).
func put(m *msg, where int, s string) {
	switch where {
	case 0:
		m.str = s
	case 1:
		m.id = s
	case 2:
		m.ctx = s
	case 3:
		m.plural, m.id2, m.str, m.strN = true, s, "", []string{"one", "two"}
	case 4:
		m.plural, m.id2, m.str, m.strN = true, "ids", "", []string{s, "two"}
	case 5:
		m.plural, m.id2, m.str, m.strN = true, "ids", "", []string{"one", "", s}
	}
}

// manyMsgs is a catalogue of many messages of all shapes.
func manyMsgs(translated bool) []*msg {
	n := []int{7, 13, 30}[sym.Choose(3)]
	x := sym.StringIn(1, "a\n\"")
	ms := []*msg{{str: "Language: ar\nX-A: " + x + "\nPlural-Forms: nplurals=6; plural=" + arabic + ";\n", cmts: []string{"# TITLE", "#", "#, fuzzy"}}}
	for i := 0; i < n; i++ {
		name := string([]byte{'a' + byte((i*11)%n)})
		m := &msg{id: name}
		switch i % 5 {
		case 0:
			m.str = "T" + name + x
			m.cmts = []string{"#: " + name + ".go:" + itoa(i*3+1), "#, go-format"}
		case 1:
			m.ctx = "ctx" + name
			m.str = strings.Repeat("word ", 5+i*4) + x + "end\n"
			m.cmts = []string{"#. note " + name}
		case 2:
			m.plural, m.id2 = true, name+"s"+x
			for j := 0; j <= i%7; j++ {
				m.strN = append(m.strN, []string{"", "f" + name, x, "line\nline\n"}[(i+j)%4])
			}
		case 3:
			m.id += strings.Repeat(" long id", i) + "\nsecond line " + x
			m.str = "\"quoted\" \\ back\ttab" + name
			m.cmts = []string{"#: z.go:1 a.go:" + itoa(i), "#: y.go:2", "#| msgid \"old\""}
		case 4:
			m.ctx, m.id, m.str = name, "", "only a context\n"+x
		}
		if !translated && i%2 == 1 {
			m.str, m.strN = "", nil
		}
		ms = append(ms, m)
	}
	return ms
}
