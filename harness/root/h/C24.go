package h

import (
	"context"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

const c24rule = "nplurals=2; plural=(n%10==1 && n%100!=11 || n==0 ? 0 : 1);"

// c24body is the text of a catalogue file: with or without header fields,
// plural forms and contexts.
func c24body(lang string, kind int) string {
	s := "msgid \"\"\nmsgstr \"\"\n\"Language: " + lang + "\\n\"\n"
	switch kind {
	case 1:
		s += "\"Plural-Forms: " + c24rule + "\\n\"\n"
	case 2:
		s += "\"Plural-Forms: nplurals=2; plural=broken(;\\n\"\n"
	}
	s += "\nmsgid \"m\"\nmsgstr \"tr-" + lang + "\"\n"
	s += "\nmsgctxt \"c\"\nmsgid \"m\"\nmsgstr \"ctx-" + lang + "\"\n"
	s += "\nmsgid \"one\"\nmsgid_plural \"many\"\nmsgstr[0] \"f0 %d\"\nmsgstr[1] \"f1 %d\"\n"
	return s
}

func c24sets(kind int) *t.Translations {
	ts := t.NewTranslations()
	ts.BindFS("d", new(memFS).add("a.po", c24body("zh_CN", kind)).add("b.po", c24body("fr", 0)))
	ts.BindFS("e", new(memFS).add("b.po", c24body("fr_FR", kind)))
	ts.SetDomain("d")
	ts.SetLocale("zh")
	return ts
}

// c24op is one lookup, derivation or query; its answer is a text.
func c24op(ts *t.Translations, k int, id string, n int64) string {
	switch k {
	case 0:
		return ts.T(id)
	case 1:
		return ts.T(id, 1, "x")
	case 2:
		return ts.X("c", id)
	case 3:
		return ts.N64("one", "many", n)
	case 4:
		return ts.XN64("c", id, "s", n)
	case 5:
		return ts.N64("one", "many", n, n&1)
	case 6:
		return ts.D("e").T(id) + ts.Domain()
	case 7:
		return ts.L("fr").T(id) + ts.Locale()
	case 8:
		return ts.D("none").L("fr_FR").N64(id, "p", n)
	case 9:
		return ts.D("e").L("fr").N64("one", "many", n, 3)
	case 10:
		ls := ""
		for _, l := range ts.Locales() {
			ls += l
		}
		return ls + ts.UsedLocale() + ts.MostMatchLocale()
	case 11:
		if ts.HasDomain(id) {
			return "has"
		}
		return string(rune('0' + len(ts.Domains())))
	case 12:
		return t.WithContext(t.SetCtxDomain(t.SetCtxLocale(context.Background(), "fr"), "e")).T(id)
	case 13:
		return t.Global().T(id) + t.Global().L("").SourceCodeLocale()
	case 14:
		return t.T(id) + t.N("one", "many", 1) + t.X("c", id) + t.D("e").T(id) + t.L("fr").T(id)
	case 15:
		return locale.NormalizeTag(t.Tag("zh_TW")) + locale.Normalize("fr")
	case 16:
		return t.GetUserLang(request("fr-FR", true)) + t.GetUserLang(request("", false, "lang=q"))
	case 18:
		return ts.L(ts.Locale()).T(id) + ts.D(ts.Domain()).T(id)
	case 19:
		return ts.L("zh").X("c", id) + ts.L("zh_CN").D("d").T(id) + ts.SourceCodeLocale()
	case 20:
		return t.WithContext(context.Background()).T(id) + t.L(t.Locale()).T(id) + t.D(t.Domain()).N("one", "many", 2)
	case 17:
		tr, _ := ts.Get("d")
		tor, ok := tr.Get("zh_CN")
		if !ok {
			return "none"
		}
		return tor.Lang() + tor.X("c", id) + tor.XN64("", "one", "many", n)
	}
	return ts.GetOrNoop("none").GetOrNoop("zz").X("", id)
}

const c24ops = 22

// H_C24_set: no two operations on the same loaded catalogues interfere: each
// gives the answer it gives alone.
//
//gosym:race
func H_C24_set() {
	kind := sym.Choose(3)
	ts := c24sets(kind)
	t.SetGlobal(ts)
	k := sym.Choose(c24ops)
	id := []string{"m", "q"}[sym.Choose(2)]
	if sym.Thorough() {
		id = letters(1)
	}
	n := sym.Int64()
	sym.Assume(n >= 0)
	k2 := k
	if sym.Thorough() {
		k2 = sym.Choose(c24ops)
	}
	sym.Parallel(func() {
		a := c24op(ts, k, id, n)
		c24op(ts, k2, id, n)
		sym.Assert(c24op(ts, k, id, n) == a, "the same lookup answers otherwise the second time")
	})
}

func c24fileop(f *translator.File, k int, id string, n int64) string {
	switch k {
	case 0:
		return f.X("", id)
	case 1:
		return f.X("c", id, n&3)
	case 2:
		return f.XN64("", "one", "many", n)
	case 3:
		return f.XN64("", id, "s", n)
	case 4:
		v, _ := f.GetHeader("Language")
		return v
	case 5:
		v, _ := f.GetHeader("X-None")
		return v + f.Lang()
	case 6:
		return string(rune('0' + len(f.SortedEntry())))
	}
	f.SaveAsPo(discard{})
	f.SaveAsPot(discard{})
	f.SaveAsMo(discard{})
	return ""
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }

func c24file(kind int) *translator.File {
	var f *translator.File
	var err error
	switch kind {
	case 0, 1, 2:
		f, err = translator.ReadPo([]byte(c24body("fr", kind)))
	case 3:
		f, err = translator.ReadPo([]byte("msgid \"m\"\nmsgstr \"x\"\n\nmsgid \"one\"\nmsgid_plural \"many\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\n"))
	case 4:
		f, err = translator.ReadMo(moImage([]*msg{{str: "Language: fr\nPlural-Forms: " + c24rule + "\n"}, {id: "m", str: "x"}}, false, moOrders[0], 0, false))
	default:
		f = new(translator.File)
		f.AddEntry(&translator.Entry{MsgID: "m", MsgStr: "x"})
		f.AddEntry(&translator.Entry{MsgID: "", MsgStr: "Language: fr\n"})
		f.AddEntry(&translator.Entry{MsgID: "one", MsgID2: "many", MsgStrN: []string{"a", "b"}})
	}
	if err != nil {
		sym.Fail(err.Error())
	}
	return f
}

// H_C24_file: the same for one catalogue, read from PO or MO or built.
//
//gosym:race
func H_C24_file() {
	kind := sym.Choose(6)
	f := c24file(kind)
	k := sym.Choose(8)
	id := letters(1)
	n := sym.Int64()
	sym.Assume(n >= 0)
	sym.Parallel(func() {
		a := c24fileop(f, k, id, n)
		sym.Assert(c24fileop(f, k, id, n) == a, "the same lookup answers otherwise the second time")
	})
}

// H_C24_rule: evaluating a plural rule.
//
//gosym:race
func H_C24_rule() {
	rule := rules[sym.Choose(len(rules))].toks
	n := sym.Int64()
	sym.Assume(n >= 0)
	sym.Parallel(func() {
		v, err := plurals.Eval(context.Background(), rule, n)
		w, err2 := plurals.Eval(context.Background(), rule, n)
		sym.Assert(v == w && (err == nil) == (err2 == nil), "the same rule answers otherwise the second time")
	})
}
