package h

import (
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/zzverif/sym"
	"golang.org/x/text/language"
)

func member(s string, list []string) bool {
	in := false
	for _, l := range list {
		in = sym.Or(in, l == s)
	}
	return in
}

// setOf is a set holding catalogues in the given languages.
func setOf(dom string, langs ...string) *t.Translations {
	ts := t.NewTranslations()
	fs := new(memFS)
	for i, l := range langs {
		fs.add(string([]byte{'a' + byte(i)})+".po", poText(l, "", "m", "tr-"+l))
	}
	ts.BindFS(dom, fs)
	ts.SetDomain(dom)
	return ts
}

var c23sets = [][]string{
	{},
	{"de_DE", "zh_CN"},
	{"zh_TW", "zh_CN"},
	{"fr_CA", "de_DE", "en_GB"},
	{"zh_CN"},
	{"pt_BR", "fr_FR"},
	{"sr_RS", "ja_JP", "zh_CN", "fr_FR"},
}

// c23set picks supported languages: which ones, and in how many sets.
func c23set() []string {
	n := 4
	if sym.Thorough() {
		n = len(c23sets)
	}
	return c23sets[sym.Choose(n)]
}

// c23lang is a requested language: any region or any language.
func c23lang() string {
	switch sym.Choose(4) {
	case 0:
		if sym.Thorough() {
			return letters(2)
		}
		return "z" + letters(1)
	case 1:
		return "zh_" + "T" + mix(letters(1), 1)
	case 2:
		return []string{"en_US", "zh_CN", "zh_TW", "pt_BR", "fr_FR", "zh_HK", "zh-Hant"}[sym.Choose(7)]
	}
	return sym.String(sym.Choose(2))
}

// H_C23_set: the best match of a set comes from that set, for its locale,
// whatever the global set holds.
func H_C23_set() {
	a, b := c23set(), c23sets[2]
	if sym.Thorough() {
		b = c23sets[1+sym.Choose(3)]
	}
	g := setOf("g", b...)
	src := ""
	ts := setOf("d", a...)
	if sym.Choose(2) == 1 {
		src = "ja_JP"
		ts.SetSourceCodeLocale(src)
	} else {
		src = "en_US"
	}
	t.SetGlobal(g)
	g.SetLocale("zh_TW")
	l := c23lang()
	ts.SetLocale(l)
	sup := ts.Locales()
	sym.Assert(member(src, sup), "the source locale is supported")
	for _, x := range a {
		sym.Assert(member(x, sup), "loaded locale not supported")
	}
	sym.Assert(len(sup) <= len(a)+1, "other locale supported")
	got := ts.MostMatchLocale()
	sym.ObserveStr("match", got)
	sym.Assert(member(got, sup), "not one of the set's locales")
	sym.Assert(sym.Implies(member(ts.Locale(), sup), got == ts.Locale()), "supported locale not chosen")
	_, i, _ := t.Match(sup, []string{ts.Locale()})
	sym.Assert(i >= 0 && i < len(sup) && sup[i] == got, "Match answers otherwise")
	sym.Assert(ts.MostMatchLocale() == got, "asking again")
	gl := g.Locale()
	gm := t.MostMatchLocale()
	gs := g.Locales()
	sym.Assert(member(gm, gs), "global: not one of the set's locales")
	sym.Assert(sym.Implies(member(gl, gs), gm == gl), "global: supported locale not chosen")
}

// H_C23_match: the index and tag of Match are of one of the supported languages.
func H_C23_match() {
	sup := c23sets[1+sym.Choose(len(c23sets)-1)]
	want := []string{c23lang()}
	if sym.Choose(2) == 1 {
		want = append(want, "fr")
	}
	_, i, c := t.Match(sup, want)
	sym.Assert(i >= 0 && i < len(sup), "index outside the supported locales")
	if c == language.No {
		return
	}
	_, j, d := t.MatchTag(t.Tags(sup), t.Tags(want))
	sym.Assert(i == j && c == d, "Match and MatchTag differ")
	if n := locale.Normalize(want[0]); member(n, sup) && want[0] == n {
		sym.Assert(sup[i] == n, "exact language not chosen")
	}
}

// H_C23_http: a request without the cookie.
func H_C23_http() {
	g := setOf("g", c23set()...)
	t.SetGlobal(g)
	switch sym.Choose(3) {
	case 1:
		g.SetLocale("zh_TW")
	case 2:
		g.SetSourceCodeLocale("ja_JP")
	}
	sup := g.Locales()
	accept, exact := "", ""
	has := true
	switch sym.Choose(6) {
	case 0:
		has = false
	case 1:
		accept = sym.String(sym.Choose(2))
		if sym.Thorough() {
			accept += sym.String(1)
		} else {
			accept += sym.StringIn(1, "az-_;,*0")
		}
	case 2:
		exact = sup[sym.Choose(len(sup))]
		accept = exact[:2] + []string{"-", "_"}[sym.Choose(2)] + exact[3:]
	case 3:
		accept = c23lang() + ",fr;q=0." + sym.StringIn(1, "0159")
	case 4:
		exact = sup[sym.Choose(len(sup))]
		accept = exact[:2] + "-" + exact[3:] + ";q=0." + sym.StringIn(1, "159")
	case 5:
		accept = c23lang() + ";q=" + sym.StringIn(2, "01.x")
	}
	cookies := []string{}
	if sym.Choose(2) == 1 {
		cookies = append(cookies, "other=zh_CN")
	}
	got := t.GetUserLang(request(accept, has, cookies...))
	sym.ObserveStr("lang", got)
	sym.Assert(member(got, sup), "not one of the global set's locales")
	if exact != "" {
		sym.Assert(got == exact, "the accepted language is supported but not chosen")
	}
	if len(sup) == 1 {
		sym.Assert(got == sup[0], "the only locale")
	}
}

// H_C23_cookie: a request with the cookie, under the default or another name.
func H_C23_cookie() {
	t.SetGlobal(setOf("g", c23set()...))
	v := sym.StringIn(sym.Choose(3), "aZ_-09")
	extra := []string{"", "a=b; ", "lan=q; "}[sym.Choose(3)]
	accept := []string{"zh-CN", "fr", "x"}[sym.Choose(3)]
	sup := t.Locales()
	switch sym.Choose(4) {
	case 0:
		sym.Assert(t.GetUserLang(request(accept, true, extra+"lang="+v)) == v, "cookie")
	case 1:
		got := t.GetUserLang(request(accept, true, extra+"ui=zh_XX; lang="+v), t.WithCookieName("ui"))
		sym.Assert(got == "zh_XX", "configured cookie")
	case 2:
		got := t.GetUserLang(request(accept, true, extra+"lang=zh_XX"), t.WithCookieName("ui"))
		sym.Assert(member(got, sup), "other cookie counted")
	case 3:
		sym.Assert(t.GetUserLang(request(accept, false, "x=1", extra+"lang="+v)) == v, "cookie in a second header")
	}
}

// H_C23_tag: cached tags are what parsing gives, whatever was parsed before.
func H_C23_tag() {
	k := 2
	if sym.Thorough() {
		k = 3
	}
	var names []string
	var tags []language.Tag
	for i := 0; i < k; i++ {
		n := c23lang()
		if i > 0 && sym.Choose(2) == 1 {
			n = names[sym.Choose(len(names))]
		}
		g, w := t.Tag(n), language.Make(n)
		sym.Assert(g == w, "cached tag differs")
		names, tags = append(names, n), append(tags, w)
	}
	got := t.Tags(names)
	sym.Assert(len(got) == len(tags), "number of tags")
	for i := range got {
		sym.Assert(got[i] == tags[i], "tag in list differs")
	}
}

// H_C23_history: supported languages that look alike do not answer for one another.
func H_C23_history() {
	sets := [][]string{
		{"de_DE", "en_US", "fr_FR", "zh_CN"},
		{"de_DE", "es_ES", "ja_JP", "zh_CN"},
		{"de_DE", "fr_FR", "en_US", "zh_CN"},
		{"de_DE", "zh_TW", "pt_BR", "zh_CN"},
		{"de_DE", "es_ES", "fr_FR"},
		{"zh_CN", "ja_JP", "es_ES", "de_DE"},
	}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	kind := sym.Choose(2)
	for i := 0; i < n; i++ {
		sup := sets[sym.Choose(len(sets))]
		want := sym.Choose(len(sup))
		if kind == 0 {
			_, j, _ := t.Match(sup, []string{sup[want]})
			sym.Assert(j == want, "supported language not chosen after other questions")
			continue
		}
		ts := setOf("d", sup[1:]...)
		ts.SetSourceCodeLocale(sup[0])
		ts.SetLocale(sup[want])
		sym.Assert(ts.MostMatchLocale() == sup[want], "supported locale not chosen after other sets")
		ts.SetLocale(sup[want][:2])
		sym.Assert(member(ts.MostMatchLocale(), sup), "not one of the set's locales")
	}
}

// H_C23_words: texts of the code as accepted languages and cookie values.
func H_C23_words() {
	w := sym.Word("", "text", 40)
	if strings.ContainsAny(w, "\";, \\\t") {
		return
	}
	g := setOf("g", c23sets[1]...)
	t.SetGlobal(g)
	sup := g.Locales()
	sym.Assert(member(t.GetUserLang(request(w, true)), sup), "not one of the global set's locales")
	sym.Assert(t.GetUserLang(request(w+";q=0.1,de-DE", true)) == "de_DE" || len(w) > 1, "the accepted language is supported but not chosen")
	ok := w != ""
	for i := 0; i < len(w); i++ {
		if w[i] <= ' ' || w[i] >= 0x7f {
			ok = false
		}
	}
	if ok {
		sym.Assert(t.GetUserLang(request("zh-CN", true, "lang="+w)) == w, "cookie")
	}
	ts := setOf("d", c23sets[1]...)
	ts.SetLocale(w)
	sym.Assert(member(ts.MostMatchLocale(), ts.Locales()), "not one of the set's locales")
	_, i, _ := t.Match(sup, []string{w, "zh_CN"})
	sym.Assert(i >= 0 && i < len(sup), "index outside the supported locales")
	sym.Assert(t.Tag(w) == language.Make(w), "cached tag differs")
	sym.Assert(t.Tag(w) == language.Make(w), "cached tag differs the second time")
}

// H_C23_size: many accepted languages, cookies and names.
func H_C23_size() {
	k := sym.Size("t", 1, 60)
	g := setOf("g", c23sets[1]...)
	t.SetGlobal(g)
	sup := g.Locales()
	switch sym.Choose(3) {
	case 0:
		got := t.GetUserLang(request(strings.Repeat("ja,", k)+"zh-CN", true))
		sym.Assert(member(got, sup), "not one of the global set's locales")
	case 1:
		v := letters(1) + strings.Repeat("a", k)
		sym.Assert(t.GetUserLang(request("zh-CN", true, strings.Repeat("x=y; ", k)+"lang="+v)) == v, "cookie")
	case 2:
		for i := 0; i < k; i++ {
			t.Tag("zh_" + string([]byte{'A' + byte(i%26), 'A' + byte(i/26)}))
		}
		for i := 0; i < k; i++ {
			n := "zh_" + string([]byte{'A' + byte(i%26), 'A' + byte(i/26)})
			sym.Assert(t.Tag(n) == language.Make(n), "cached tag differs")
		}
		sym.Assert(t.Tag("fr") == language.French, "cached tag differs")
	}
}
