package h

import (
	"sort"

	"github.com/youthlin/t"
	"github.com/youthlin/t/zzverif/sym"
)

// H_C06_domain: arbitrary domain names.
func H_C06_domain() {
	ts := t.NewTranslations()
	d1, d2, cur := name(1), name(1), name(2)
	if sym.Choose(2) == 1 {
		d1 = t.DefaultDomain
	}
	ts.BindFS(d1, new(memFS).add("a.po", poText("zh_CN", "", "m", "one")))
	ts.BindFS(d2, new(memFS).add("a.po", poText("zh_CN", "", "m", "two")).add("b.po", poText("fr", "", "m", "deux")))
	ts.SetDomain(cur)
	loc := []string{"zh_CN", "fr_FR", "en_US", "de_DE", "fr_CA", "zh_HK"}[sym.Choose(6)]
	ts.SetLocale(loc)
	want, used := "m", "en_US"
	locales := []string{"en_US"}
	if cur == d2 {
		locales = []string{"en_US", "fr_FR", "zh_CN"}
		if loc == "zh_CN" {
			want, used = "two", loc
		} else if loc == "fr_FR" {
			want, used = "deux", loc
		}
	} else if cur == d1 {
		locales = []string{"en_US", "zh_CN"}
		if loc == "zh_CN" {
			want, used = "one", loc
		}
	}
	n := sym.Int64()
	got := ts.T("m")
	sym.ObserveStr("got", got)
	sym.Assert(got == want, "answer does not come from the current domain and locale")
	sym.Assert(ts.X("c", "m") == "m", "another context answers")
	gp := ts.N64("m", "ms", n)
	if want != "m" {
		sym.Assert(gp == want, "plural lookup does not come from the current domain and locale")
	} else {
		sym.Assert(fallback(gp, "m", "ms", n, ""), "default plural choice")
	}
	sym.Assert(ts.UsedLocale() == used, "used locale")
	sym.Assert(ts.Domain() == cur, "current domain")
	sym.Assert(ts.Locale() == loc, "current locale")
	sameList(ts.Locales(), locales)
}

var localeNames = []string{"zh_CN", "zh-cn", "zh", "zh-Hant", "zh_TW", "en_US", "en", "en_GB", "fr", "fr_FR.UTF-8", "pt_BR", "pt", "xx", "sr_RS@latin", "fr_CA", "fr_BE.UTF-8", "pt_PT", "zh_HK", "en_AU"}

// H_C06_locale: several catalogues, every spelling of the current locale, any source locale.
func H_C06_locale() {
	sym.MapOrder(true)
	ts := t.NewTranslations()
	m := new(memFS)
	langs := [][2]string{{"zh_CN", "zh_CN"}, {"zh-Hant", "zh_TW"}, {"en", "en_US"}, {"fr", "fr_FR"}, {"pt_BR", "pt_BR"}}
	have := map[string]string{}
	mask := sym.Choose(8)
	for i, l := range langs[:3+2*b2int(sym.Thorough())] {
		if i >= 3 && sym.Choose(2) == 0 || i < 3 && mask>>i&1 == 0 {
			continue
		}
		m.add("f"+string(rune('0'+i))+".po", poText(l[0], "nplurals=2; plural=n != 1;", "m", "tr-"+l[1], "k", ""))
		have[l[1]] = "tr-" + l[1]
	}
	ts.BindFS("d", m)
	src := []string{"en_US", "de", "zh_CN"}[sym.Choose(3)]
	ts.SetSourceCodeLocale(src)
	if src == "de" {
		src = "de_DE"
	}
	set := localeNames[sym.Choose(len(localeNames))]
	ts.SetLocale(set)
	cur := ts.Locale()
	onDomain := sym.Choose(2) == 1
	if onDomain {
		ts.SetDomain("d")
	}
	want, used := "m", src
	if tr, ok := have[cur]; ok && onDomain {
		want, used = tr, cur
	}
	got := ts.T("m")
	sym.ObserveStr("got", got)
	sym.Assert(got == want, "answer does not come from the catalogue of the current locale")
	sym.Assert(ts.T("k") == "k", "untranslated message")
	sym.Assert(ts.T("q %d", 1) == "q 1", "missing message is formatted")
	n := sym.Int64()
	sym.Assert(sym.Or(got != "m", fallback(ts.N64("m", "ms", n), "m", "ms", n, "")), "default plural choice")
	sym.Assert(ts.UsedLocale() == used, "used locale")
	sym.Assert(ts.SourceCodeLocale() == src, "source locale")
	all := []string{src}
	if onDomain {
		for l := range have {
			if l != src {
				all = append(all, l)
			}
		}
	}
	sort.Strings(all)
	sameList(ts.Locales(), all)
}

// H_C06_many: many domains with many catalogues.
func H_C06_many() {
	langs := [][2]string{{"zh-cn", "zh_CN"}, {"zh_TW", "zh_TW"}, {"en", "en_US"}, {"en_GB", "en_GB"}, {"fr", "fr_FR"}, {"fr_CA", "fr_CA"}, {"pt", "pt_BR"}, {"pt_PT", "pt_PT"}, {"de", "de_DE"}, {"ja", "ja_JP"}, {"es_MX", "es_MX"}, {"es", "es_ES"}}
	k := 5
	if sym.Thorough() {
		k = 12
	}
	ts := t.NewTranslations()
	x := letters(1)
	dom := func(i int) string { return "dom" + string(rune('a'+i)) }
	has := func(i, j int) bool { return (i+j)%3 != 0 }
	for i := 0; i < k; i++ {
		m := new(memFS)
		for j, l := range langs {
			if has(i, j) {
				m.add("f"+string(rune('a'+j))+".po", poText(l[0], "", "m", x+dom(i)+l[1]))
			}
		}
		ts.BindFS(dom(i), m)
	}
	sym.Assert(len(ts.Domains()) == k, "number of domains")
	h := ts
	for i := 0; i < k; i++ {
		var all []string
		for j, l := range langs {
			if has(i, j) {
				all = append(all, l[1])
			}
		}
		all = append(all, "en_AU")
		sort.Strings(all)
		for j, l := range langs {
			h = h.D(dom(i)).L(l[1])
			h.SetSourceCodeLocale("en_AU")
			want, used := "m", "en_AU"
			if has(i, j) {
				want, used = x+dom(i)+l[1], l[1]
			}
			sym.Assert(h.T("m") == want, "answer does not come from the current domain and locale")
			sym.Assert(h.X("", "m") == want && h.UsedLocale() == used, "used locale")
		}
		sameList(h.Locales(), all)
	}
	sym.Assert(h.D("dom").T("m") == "m" && h.D("domaa").T("m") == "m", "another domain answers")
}

// H_C06_words: texts of the code as domains and locales.
func H_C06_words() {
	w := sym.Word("", "any", 40)
	ts := t.NewTranslations()
	ts.BindFS(w, new(memFS).add("a.po", poText("zh_CN", "", "m", "one")))
	ts.BindFS(w+"2", new(memFS).add("a.po", poText("zh_CN", "", "m", "two")).add("b.po", poText("fr", "", "m", "deux")))
	ts.SetLocale("zh_CN")
	ts.SetDomain(w)
	sym.Assert(ts.T("m") == "one" && ts.Domain() == w, "answer does not come from the current domain")
	ts.SetDomain(w + "2")
	sym.Assert(ts.T("m") == "two" && ts.Domain() == w+"2", "answer does not come from the current domain")
	ts.SetLocale("fr_FR")
	sym.Assert(ts.T("m") == "deux" && ts.UsedLocale() == "fr_FR", "answer does not come from the current locale")
	ts.SetLocale("fr_CA")
	sym.Assert(ts.T("m") == "m" && ts.UsedLocale() == "en_US", "another locale answers")
	ts.SetLocale("fr_FR")
	ts.SetDomain(w)
	sym.Assert(ts.T("m") == "m" && ts.UsedLocale() == "en_US", "another domain answers")
	ts.SetDomain("x" + w)
	sym.Assert(ts.T("m") == "m", "an unknown domain answers")
	// the locale
	ts.SetDomain(w + "2")
	ts.SetLocale(w)
	want := "m"
	switch ts.Locale() {
	case "zh_CN":
		want = "two"
	case "fr_FR":
		want = "deux"
	}
	sym.Assert(ts.T("m") == want, "answer does not come from the current locale")
	sym.Assert(ts.T(w) == w && ts.X(w, "m") == "m", "a missing message answers")
}

// H_C06_size: domain names of the lengths the code mentions.
func H_C06_size() {
	k := sym.Size("", 1, 5000)
	x := letters(1)
	ts := t.NewTranslations()
	a, b := sized(k, x), sized(k, "0")
	ts.BindFS(a, new(memFS).add("a.po", poText("zh_CN", "", "m", "one")))
	ts.BindFS(b, new(memFS).add("a.po", poText("zh_CN", "", "m", "two")))
	ts.SetLocale("zh_CN")
	for i, d := range []string{a, b, sized(k, "1"), a + "z", sized(k-1, "m")} {
		ts.SetDomain(d)
		sym.Assert(ts.T("m") == []string{"one", "two", "m", "m", "m"}[i] && ts.Domain() == d, "answer does not come from the current domain")
	}
}
