package h

import (
	"errors"
	"sort"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// ownTor is a translator of the user's own.
type ownTor struct{ lang, text string }

func (o *ownTor) Lang() string { return o.lang }
func (o *ownTor) X(c, id string, args ...any) string {
	return o.text + c + id
}
func (o *ownTor) XN64(c, id, id2 string, n int64, args ...any) string {
	return o.text + c + id + id2
}

// c29langs are spellings of languages and what they name.
var c29langs = [][2]string{{"zh-cn", "zh_CN"}, {"zh_CN.UTF-8", "zh_CN"}, {"", ""}, {"fr", "fr_FR"}, {"ZH_cn", "zh_CN"}, {"fr-fr@x", "fr_FR"}, {"iw", "he_IL"}, {"he", "he_IL"}}

// c29 is a domain and its plain model.
type c29 struct {
	tr   *t.Translation
	text map[string]string       // language -> what its translator answers for "m"
	tor  map[string]t.Translator // when it is known which one it is
	all  []*ownTor               // the user's own that were added so far
}

func (d *c29) put(lang, text string, tor t.Translator) {
	if lang == "" {
		return
	}
	d.text[lang] = text
	d.tor[lang] = tor
}

func (d *c29) check() {
	for _, l := range []string{"zh_CN", "fr_FR", "he_IL", "en_US", ""} {
		tor, ok := d.tr.Get(l)
		text, known := d.text[l]
		sym.Assert(ok == known, "a catalogue is missing or was never added")
		if !known {
			text = "m"
		} else if ok {
			sym.Assert(tor.X("", "m") == text, "not the last catalogue of its language")
		}
		sym.Assert(d.tr.GetOrNoop(l).X("", "m") == text, "a missing language does not answer with the source text")
		if w := d.tor[l]; w != nil && ok {
			sym.Assert(tor == w, "not the translator that was added")
		}
	}
}

// step does one operation.
func (d *c29) step(kinds, langs int) {
	text := letters(1) + "*"
	l := c29langs[sym.Choose(langs)]
	mo := func() string {
		return string(moImage([]*msg{{str: "Language: " + l[0] + "\n"}, {id: "m", str: text}}, false, moOrders[0], 0, false))
	}
	add := func(tor t.Translator, text string) {
		old, known := d.text[l[1]], l[1] != "" && d.text[l[1]] != ""
		pre := d.tr.AddOrReplace(tor)
		sym.Assert((pre != nil) == known, "the previous translator is not returned, or one that never was")
		if pre != nil && known {
			sym.Assert(pre.X("", "m") == old, "not the previous translator")
			if w := d.tor[l[1]]; w != nil {
				sym.Assert(pre == w, "not the previous translator")
			}
		}
		d.put(l[1], text, tor)
	}
	load := func(e memEntry, loads, bad bool) {
		m := &memFS{files: []memEntry{e}}
		f, err := m.Open(e.path)
		if err != nil {
			sym.Fail("harness")
			return
		}
		err = d.tr.LoadFile(f)
		if loads {
			sym.Assert((err == nil) == (l[1] != ""), "loading does not report")
			d.put(l[1], text, nil)
		}
		if bad {
			sym.Assert(err != nil, "a failed load reports nothing")
		}
		if e.fault == 2 || e.fault == 3 || e.fault == 4 {
			sym.Assert(errors.Is(err, errFault), "not the error of the file")
		}
	}
	switch k := sym.Choose(kinds); k {
	case 0:
		if n := len(d.all); n > 0 && sym.Choose(2) == 1 { // once more
			o := d.all[n-1]
			for _, e := range c29langs {
				if e[0] == o.lang {
					l = e
				}
			}
			add(o, o.text+"m")
			break
		}
		o := &ownTor{l[0], text}
		d.all = append(d.all, o)
		add(o, text+"m")
	case 1:
		f := new(translator.File)
		f.AddEntry(&translator.Entry{MsgStr: "Language: " + l[0] + "\n"})
		f.AddEntry(&translator.Entry{MsgID: "m", MsgStr: text})
		add(f, text)
	case 2:
		err := d.tr.LoadPo([]byte(poText(l[0], "", "m", text)))
		sym.Assert((err == nil) == (l[1] != ""), "loading PO data does not report")
		d.put(l[1], text, nil)
	case 3:
		err := d.tr.LoadMo([]byte(mo()))
		sym.Assert((err == nil) == (l[1] != ""), "loading MO data does not report")
		d.put(l[1], text, nil)
	case 4: // malformed data
		po, m := poText(l[0], "", "m", text)+"nonsense", mo()
		sym.Assert(d.tr.LoadPo([]byte(po)) != nil, "malformed PO data accepted")
		sym.Assert(d.tr.LoadMo([]byte(m[:len(m)-1-len(text)])) != nil, "malformed MO data accepted")
		sym.Assert(d.tr.LoadPo(nil) != nil, "no PO data accepted")
		sym.Assert(d.tr.LoadMo(nil) != nil, "no MO data accepted")
		sym.Assert(d.tr.LoadPo([]byte(m)) != nil, "MO data taken for PO")
		sym.Assert(d.tr.LoadMo([]byte(po)) != nil, "PO data taken for MO")
	case 5:
		load(memEntry{path: "x.po", data: poText(l[0], "", "m", text), fault: odd[sym.Choose(len(odd))]}, true, false)
	case 6:
		load(memEntry{path: "x.po.mo", data: mo(), fault: odd[sym.Choose(len(odd))]}, true, false)
	case 7: // not a catalogue by its name, or not what its name says
		load(memEntry{path: "x.txt", data: poText(l[0], "", "m", text)}, false, false)
		load(memEntry{path: "po", data: poText(l[0], "", "m", text)}, false, false)
		load(memEntry{path: "x.po", data: mo()}, false, true)
		load(memEntry{path: "x.mo", data: poText(l[0], "", "m", text)}, false, true)
		load(memEntry{path: "x.po"}, false, true)
		load(memEntry{path: "x.mo"}, false, true)
	case 8: // the file fails
		load(memEntry{path: []string{"x.po", "x.txt", "x.mo"}[sym.Choose(3)], data: poText(l[0], "", "m", text), fault: 2 + sym.Choose(3)}, false, true)
	case 9: // a tree
		m := new(memFS)
		m.add("a/b.po", poText(l[0], "", "m", text)).add("c.mo", mo()[:30]).add("d.txt", "x")
		sym.Assert(d.tr.LoadFS(m) == (l[1] != ""), "loading a tree does not report")
		d.put(l[1], text, nil)
	case 10: // a tree with nothing in it
		m := new(memFS)
		m.add("a/b.po", poText("", "", "m", text)).add("c.mo", mo()[:30])
		sym.Assert(!d.tr.LoadFS(m), "loading nothing is reported as a success")
	}
}

// H_C29_history: histories of two (thorough three) operations of every kind.
func H_C29_history() {
	d := &c29{tr: t.NewTranslation("dom"), text: map[string]string{}, tor: map[string]t.Translator{}}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		d.step(11, 3+b2int(sym.Thorough()))
		d.check()
	}
}

// H_C29_long: longer histories of fewer kinds.
func H_C29_long() {
	d := &c29{tr: t.NewTranslation("dom"), text: map[string]string{}, tor: map[string]t.Translator{}}
	n := 4
	if sym.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		d.step(3, 3)
	}
	d.check()
}

// H_C29_new: the translators a domain is made of, later ones replacing earlier ones.
func H_C29_new() {
	n := sym.Choose(5)
	var tors []t.Translator
	d := &c29{text: map[string]string{}, tor: map[string]t.Translator{}}
	for i := 0; i < n; i++ {
		l := c29langs[sym.Choose(len(c29langs))]
		o := &ownTor{l[0], letters(1) + "*"}
		tors = append(tors, o)
		d.put(l[1], o.text+"m", o)
	}
	d.tr = t.NewTranslation("dom", tors...)
	d.check()
	for i := range tors { // the caller's list is not kept
		tors[i] = &ownTor{"en", "other"}
	}
	d.check()
}

// H_C29_live: what is added to a domain of a set answers from then on, in the
// set and in everything derived from it, and under no other domain.
func H_C29_live() {
	ts := t.NewTranslations()
	ts.SetLocale("zh")
	before := letters(1)
	ts.BindFS("dom", new(memFS).add("z.po", poText("zh-CN", "", "m", before)))
	ts.BindFS("other", new(memFS).add("z.po", poText("zh-CN", "", "m", "o")))
	ts.SetDomain("dom")
	derived := ts.L("fr")
	tr, ok := ts.Get("dom")
	if !ok {
		sym.Fail("a bound domain is missing")
		return
	}
	sym.Assert(ts.GetOrNoop("dom") == tr, "not the same domain")
	_, ok = ts.Get("none")
	sym.Assert(!ok, "a domain that was never bound")
	d := &c29{tr: tr, text: map[string]string{"zh_CN": before}, tor: map[string]t.Translator{}}
	for i := 0; i < 1+b2int(sym.Thorough()); i++ {
		d.step(11, 4)
	}
	d.check()
	locales := []string{"en_US"}
	for l, text := range d.text {
		sym.Assert(ts.L(l).T("m") == text, "the set does not answer from its domain")
		sym.Assert(derived.L(l).T("m") == text, "a derived set does not answer from the domain")
		sym.Assert(ts.L(l).UsedLocale() == l, "used locale")
		locales = append(locales, l)
	}
	sort.Strings(locales)
	sameList(ts.Locales(), locales)
	sym.Assert(ts.D("other").T("m") == "o", "another domain has changed")
	sym.Assert(ts.D("none").T("m") == "m", "a domain that was never bound answers")
}

// H_C29_noop: what stands for a missing language or domain answers with the
// source text and cannot be changed by adding to it.
func H_C29_noop() {
	n := sym.Int64()
	x := letters(1)
	ts := t.NewTranslations()
	tors := []t.Translator{t.NoopTranslator(), t.NewTranslation("d").GetOrNoop("zh_CN"), ts.GetOrNoop("none").GetOrNoop("zh_CN")}
	tor := tors[sym.Choose(3)]
	sym.Assert(tor.Lang() == "", "a language")
	sym.Assert(tor.X("c", x) == x, "source text")
	sym.Assert(tor.X("c", x+"%d", 5) == x+"5", "source text formatted")
	got := tor.XN64("c", x, x+"s", n)
	sym.Assert(fallback(got, x, x+"s", n, ""), "source plural")
	sym.Assert(t.NewTranslation("d").AddOrReplace(tor) == nil, "added without a language")
}

// H_C29_names: the file's own name decides how it is read.
func H_C29_names() {
	l := [][2]string{{"zh-cn", "zh_CN"}}[0]
	text := letters(1)
	po := poText(l[0], "", "m", text)
	name := sym.String(1+sym.Choose(3)) + []string{"o", "po", ".po", ".mo", ".po.", "."}[sym.Choose(6)]
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] != '/')
	}
	m := &memFS{files: []memEntry{{path: name, data: po}}}
	f, err := m.Open(name)
	if err != nil {
		sym.Fail("harness")
		return
	}
	d := &c29{tr: t.NewTranslation("dom"), text: map[string]string{}, tor: map[string]t.Translator{}}
	err = d.tr.LoadFile(f)
	if strings.HasSuffix(name, ".po") {
		sym.Assert(err == nil, "a PO file is refused")
		d.put(l[1], text, nil)
	} else if strings.HasSuffix(name, ".mo") {
		sym.Assert(err != nil, "PO text read as an MO file")
	}
	d.check()
}

// H_C29_missing: adding to what stands for a missing domain adds to no other
// domain, of this set or another one.
func H_C29_missing() {
	ts, other := t.NewTranslations(), t.NewTranslations()
	l := c29langs[sym.Choose(3)]
	text := letters(1) + "*"
	x := letters(1)
	missing := ts.GetOrNoop("none")
	switch sym.Choose(3) {
	case 0:
		missing.AddOrReplace(&ownTor{l[0], text})
	case 1:
		missing.LoadPo([]byte(poText(l[0], "", x, text)))
	case 2:
		missing.LoadFS(new(memFS).add("z.po", poText(l[0], "", x, text)))
	}
	for _, s := range []*t.Translations{ts, other, t.NewTranslations()} {
		s.SetLocale(l[0])
		sym.Assert(s.D("nowhere").T(x) == x, "a domain that was never bound answers with something added elsewhere")
		_, ok := s.GetOrNoop("empty").Get(l[1])
		sym.Assert(!ok, "a domain that was never bound has a language")
		n := len(s.D("nowhere").Locales())
		sym.Assert(n == 1, "a domain that was never bound has locales")
	}
}

// H_C29_words: texts of the code in file names, languages and messages.
func H_C29_words() {
	w := sym.Word("", "text", 40)
	d := &c29{tr: t.NewTranslation(w), text: map[string]string{}, tor: map[string]t.Translator{}}
	x := letters(1)
	sym.Assert(d.tr.LoadPo([]byte(poText("zh-cn", "", "m", x))) == nil, "loading PO data")
	d.put("zh_CN", x, nil)
	if !strings.ContainsAny(w, "/") && w != "" {
		name := w + []string{"", "x", ".po", ".mo"}[sym.Choose(4)]
		f, err := (&memFS{files: []memEntry{{path: name, data: poText("fr", "", "m", x+"*")}}}).Open(name)
		if err != nil {
			sym.Fail("harness")
			return
		}
		err = d.tr.LoadFile(f)
		if strings.HasSuffix(name, ".po") {
			sym.Assert(err == nil, "a PO file is refused")
			d.put("fr_FR", x+"*", nil)
		} else if strings.HasSuffix(name, ".mo") {
			sym.Assert(err != nil, "PO text read as an MO file")
		}
	}
	d.check()
	_, ok := d.tr.Get(w)
	sym.Assert(ok == (d.text[w] != ""), "a language that was never added")
}

// H_C29_few: catalogues of a header alone, short and long, and of few messages.
func H_C29_few() {
	d := &c29{tr: t.NewTranslation("dom"), text: map[string]string{}, tor: map[string]t.Translator{}}
	x := letters(1)
	k := sym.Size("t", 0, 3000)
	head := "Language: fr\n" + strings.Repeat("X-A: "+strings.Repeat("n", 44)+"\n", k/50) + "X-B: " + strings.Repeat("m", k%50) + "\n"
	ms := []*msg{{str: head}}
	text := "m"
	if sym.Choose(2) == 1 {
		ms = append(ms, &msg{id: "m", str: x})
		text = x
	}
	f := fileOf(ms)
	switch sym.Choose(4) {
	case 0:
		sym.Assert(d.tr.LoadPo(savePo(f)) == nil, "loading PO data")
	case 1:
		sym.Assert(d.tr.LoadMo(saveMo(f)) == nil, "loading MO data")
	case 2:
		sym.Assert(d.tr.LoadMo(moImage(ms, true, moOrders[1], 0, false)) == nil, "loading MO data")
	case 3:
		sym.Assert(d.tr.LoadFS(new(memFS).add("a.po", string(savePo(f)))), "loading a tree")
	}
	d.put("fr_FR", text, nil)
	d.check()
}
