package h

import (
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/f"
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

const eot = "\x04"

// H_C05_pairs: two or three entries and a lookup with arbitrary short contexts and ids.
func H_C05_pairs() {
	max, k := 3, 2
	if sym.Thorough() {
		k = 3
	}
	file := new(translator.File)
	type ent struct{ c, id, tr string }
	var es []ent
	for i := 0; i < k; i++ {
		c, id := sym.String(sym.Choose(max)), sym.String(sym.Choose(max))
		noEOT(c)
		tr := ""
		if sym.Choose(3) > 0 {
			tr = "T" + string(rune('0'+i))
		}
		es = append(es, ent{c, id, tr})
		file.AddEntry(&translator.Entry{MsgCtxt: c, MsgID: id, MsgStr: tr})
	}
	c, id := sym.String(sym.Choose(max)), sym.String(sym.Choose(max))
	noEOT(c)
	got := file.X(c, id)
	want := id
	for _, e := range es {
		if e.c == c && e.id == id { // a later entry replaces an earlier one
			want = id
			if e.tr != "" {
				want = e.tr
			}
		}
	}
	sym.ObserveStr("got", got)
	sym.Assert(got == want, "lookup does not return the entry for its context and id")
}

// H_C05_text: arbitrary translation bytes come back unchanged, whatever verbs they contain.
func H_C05_text() {
	max := 6
	if sym.Thorough() {
		max = 12
	}
	tr := sym.String(sym.Choose(max) + 1)
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgCtxt: "c", MsgID: "id", MsgStr: tr})
	file.AddEntry(&translator.Entry{MsgID: "id", MsgStr: "other"})
	sym.Assert(file.X("c", "id") == tr, "translation changed")
	sym.Assert(file.X("", "id") == "other", "empty context confused with another")
	sym.Assert(file.X("d", "id") == "id", "another context answered")
	sym.Assert(file.X("c", "id2") == "id2", "another id answered")
	sym.ObserveStr("got", file.X("c", "id"))
	// a missing message is returned unchanged too
	sym.Assert(file.X("c", tr+"!") == tr+"!", "source text changed")
}

// H_C05_long: longer contexts and ids, looked up and stored.
func H_C05_long() {
	n := []int{4, 9, 17}[sym.Choose(3)]
	c, id := sym.String(n), "id"
	noEOT(c)
	if sym.Choose(2) == 1 {
		c, id = "c", c
	}
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=2; plural=n != 1;\n"})
	file.AddEntry(&translator.Entry{MsgID: "id", MsgStr: "plain"})
	file.AddEntry(&translator.Entry{MsgCtxt: "c", MsgID: "id", MsgStr: "in c"})
	file.AddEntry(&translator.Entry{MsgCtxt: "c", MsgID: "pl", MsgID2: "pls", IsPlural: true, MsgStrN: []string{"one", "many"}})
	file.AddEntry(&translator.Entry{MsgID: "pl", MsgID2: "pls", IsPlural: true, MsgStrN: []string{"plain one", "plain many"}})
	sym.Assert(file.X(c, id) == id, "another context or id answered")
	sym.Assert(file.XN64(c, id, "p", 1) == id, "another context or id answered")
	if id == "id" {
		sym.Assert(file.XN64(c, "pl", "pls", 2) == "pls", "another context answered")
	} else {
		sym.Assert(file.X("", id) == id, "another id answered")
	}
	file.AddEntry(&translator.Entry{MsgCtxt: c, MsgID: id, MsgStr: "new"})
	sym.Assert(file.X(c, id) == "new", "stored message not found")
	sym.Assert(file.X("", "id") == "plain" && file.X("c", "id") == "in c", "other messages changed")
	sym.Assert(file.XN64("c", "pl", "pls", 1) == "one" && file.XN64("", "pl", "pls", 2) == "plain many", "other messages changed")
}

// H_C05_args: formatted with the arguments.
func H_C05_args() {
	texts := []string{"a %s b", "%[2]s-%[1]s", "no verbs", "%d", "%v%v%v", "100%", "%%", ""}
	tr, id := texts[sym.Choose(len(texts))], texts[sym.Choose(len(texts)-1)]
	var args []any
	switch sym.Choose(3) {
	case 1:
		args = []any{sym.String(1)}
	case 2:
		args = []any{"x", 7}
	}
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "Language: xx\n"})
	file.AddEntry(&translator.Entry{MsgCtxt: "c", MsgID: id, MsgStr: tr})
	var tor t.Translator = file
	want := f.Format(id, args...)
	if tr != "" {
		want = f.Format(tr, args...)
	}
	if got := tor.X("c", id, args...); got != want {
		sym.Fail("translation not formatted with the arguments")
	}
	sym.Assert(tor.X("", id, args...) == f.Format(id, args...), "missing message not formatted with the arguments")
	sym.Assert(t.NoopTranslator().X("c", id, args...) == f.Format(id, args...), "source text not formatted with the arguments")
}

// H_C05_plural: singular lookups of plural messages and the reverse do not mix messages up.
func H_C05_plural() {
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=2; plural=n != 1;\n"})
	a, b := sym.String(1), sym.String(1)
	sym.Assume(a != b)
	file.AddEntry(&translator.Entry{MsgID: a, MsgID2: "p", IsPlural: true, MsgStrN: []string{"A0", "A1"}})
	file.AddEntry(&translator.Entry{MsgID: b, MsgStr: "B"})
	file.AddEntry(&translator.Entry{MsgCtxt: "c", MsgID: a, MsgID2: "p", IsPlural: true, MsgStrN: []string{"C0", "C1", "C2"}})
	n := sym.Int64()
	sym.Assert(file.X("", a) == a, "a message without single translation")
	sym.Assert(file.X("c", a) == a, "a message without single translation")
	sym.Assert(file.X("c", b) == b, "another context answered")
	got := file.XN64("", a, "p", n)
	sym.Assert(sym.Or(sym.And(n == 1, got == "A0"), sym.And(n != 1, got == "A1")), "plural message confused")
	sym.Assert(file.X("", b) == "B", "singular message confused")
	sym.Assert(file.XN64("", b, "p", n) == "B", "singular message confused in a plural lookup")
	c := sym.String(2)
	sym.Assert(file.X("", c) == c, "unknown id")
}

// H_C05_many: catalogues of many messages; every one is found, and nothing else.
func H_C05_many() {
	n := []int{12, 40, 130}[sym.Choose(2+b2int(sym.Thorough()))]
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "Plural-Forms: nplurals=2; plural=n != 1;\n"})
	num := func(i int) string { return string([]byte{'a' + byte(i/26), 'a' + byte(i%26)}) }
	x := sym.String(1)
	noEOT(x)
	at := []int{0, 7, n / 2, n - 1}[sym.Choose(4)]
	for i := 0; i < n; i++ {
		e := &translator.Entry{MsgID: num(i), MsgStr: "t" + num(i)}
		if i%3 == 1 {
			e.MsgCtxt = "c" + num(i%5)
		}
		if i%4 == 2 {
			e.IsPlural, e.MsgID2, e.MsgStr, e.MsgStrN = true, "ps", "", []string{"one" + num(i), "many" + num(i)}
		}
		if i == at {
			e.MsgStr, e.IsPlural, e.MsgID2, e.MsgStrN = "t"+x, false, "", nil
		}
		file.AddEntry(e)
	}
	for round := 0; round < 2; round++ { // the second time, whatever was asked before
		for i := 0; i < n; i++ {
			c := ""
			if i%3 == 1 {
				c = "c" + num(i%5)
			}
			id := num(i)
			switch {
			case i == at:
				sym.Assert(file.X(c, id) == "t"+x, "translation of the message")
			case i%4 == 2:
				sym.Assert(file.XN64(c, id, "ps", 5) == "many"+id, "plural translation of the message")
			default:
				sym.Assert(file.X(c, id) == "t"+id, "translation of the message")
			}
			sym.Assert(file.X("d"+c, id) == id, "another context answered")
			sym.Assert(file.X(c, id+"z") == id+"z", "another id answered")
		}
	}
	sym.Assert(file.X(x, "ab") == "ab", "another context answered")
}

// H_C05_texts: long source texts and translations with many verbs and arguments.
func H_C05_texts() {
	x := sym.String(2)
	sym.Assume(x[0] != '%')
	sym.Assume(x[0] < 128)
	long := ""
	n := []int{3, 40, 300}[sym.Choose(3)]
	for i := 0; i < n; i++ {
		long += "lorem ipsum %% "
	}
	id := "%s/" + long + "%[2]v"
	tr := x[:1] + long + "%[2]s<%[1]s>"
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgID: id, MsgStr: tr})
	sym.Assert(file.X("", id) == tr, "translation changed without arguments")
	sym.Assert(file.X("", id, x[1:], "b") == f.Format(tr, x[1:], "b"), "translation not formatted")
	sym.Assert(file.X("c", id, x[1:], "b") == f.Format(id, x[1:], "b"), "source text not formatted")
}

// H_C05_size: contexts, ids and translations of the lengths the code mentions.
func H_C05_size() {
	k := sym.Size("", 2, 5000)
	x := letters(1)
	long := sized(k, x)
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgID: long, MsgStr: "id"})
	file.AddEntry(&translator.Entry{MsgCtxt: long, MsgID: "a", MsgStr: "ctx"})
	file.AddEntry(&translator.Entry{MsgCtxt: long, MsgID: long, MsgStr: "both"})
	file.AddEntry(&translator.Entry{MsgID: "a", MsgStr: long})
	file.AddEntry(&translator.Entry{MsgID: sized(k, "0"), MsgStr: "other"})
	sym.Assert(file.X("", long) == "id", "translation of a long id")
	sym.Assert(file.X(long, "a") == "ctx", "translation in a long context")
	sym.Assert(file.X(long, long) == "both", "translation of a long id in a long context")
	sym.Assert(file.X("", "a") == long, "long translation")
	sym.Assert(file.X("", sized(k, "0")) == "other", "another long id")
	sym.Assert(file.X("", sized(k, "1")) == sized(k, "1"), "another id answered")
	sym.Assert(file.X("", long+"z") == long+"z", "another id answered")
	sym.Assert(file.X(sized(k, "1"), "a") == "a", "another context answered")
	sym.Assert(file.X(sized(k, "1"), "%s", "v") == "v", "source text formatted")
}

// H_C05_words: texts of the code as contexts, ids and translations.
func H_C05_words() {
	w := sym.Word("", "any", 80)
	if w == "" {
		return
	}
	file := new(translator.File)
	file.AddEntry(&translator.Entry{MsgStr: "Language: xx\n"})
	file.AddEntry(&translator.Entry{MsgID: "a", MsgStr: w})
	file.AddEntry(&translator.Entry{MsgID: w + "1", MsgStr: "one"})
	sym.Assert(file.X("", "a") == w, "translation changed")
	sym.Assert(file.X("", w) == w && file.X("c", w) == w, "source text changed")
	file.AddEntry(&translator.Entry{MsgID: w, MsgStr: "id"})
	sym.Assert(file.X("", w) == "id", "translation of the id")
	sym.Assert(file.X("", w+"1") == "one", "another id")
	if strings.Contains(w, eot) {
		return
	}
	file.AddEntry(&translator.Entry{MsgCtxt: w, MsgID: "a", MsgStr: "ctx"})
	sym.Assert(file.X(w, "a") == "ctx", "translation in the context")
	sym.Assert(file.X("", "a") == w, "message without context")
	sym.Assert(file.X(w, w) == w, "another id answered")
	file.AddEntry(&translator.Entry{MsgCtxt: w, MsgID: w, MsgStr: "both"})
	sym.Assert(file.X(w, w) == "both" && file.X("", w) == "id", "context and id alike")
}

// H_C05_count: catalogues of as many messages as the constants of the code say.
func H_C05_count() {
	max := 70
	if sym.Thorough() {
		max = 600
	}
	k := sym.Size("translator", 1, max)
	x := letters(1)
	file := new(translator.File)
	for i := 0; i < k; i++ {
		file.AddEntry(&translator.Entry{MsgCtxt: itoa(i % 7), MsgID: "m" + itoa(i), MsgStr: x + itoa(i)})
	}
	for i := 0; i < k; i++ {
		sym.Assert(file.X(itoa(i%7), "m"+itoa(i)) == x+itoa(i), "translation of the message")
	}
	sym.Assert(file.X("0", "m"+itoa(k)) == "m"+itoa(k), "unknown id")
}
