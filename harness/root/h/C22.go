package h

import (
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/locale"
	"github.com/youthlin/t/zzverif/sym"
)

// llCC checks the form language_REGION.
func llCC(s string) {
	i := 0
	for i < len(s) && s[i] != '_' {
		sym.Assert(s[i] >= 'a' && s[i] <= 'z', "language is not lower case letters")
		i++
	}
	sym.Assert(i == 2 || i == 3, "language has 2 or 3 letters")
	r := ""
	if i < len(s) {
		r = s[i+1:]
	}
	if len(r) == 2 {
		sym.Assert(r[0] >= 'A' && r[0] <= 'Z' && r[1] >= 'A' && r[1] <= 'Z', "region is not upper case letters")
	} else {
		sym.Assert(len(r) == 3 && r[0] >= '0' && r[0] <= '9', "region is neither two letters nor a number")
	}
}

func c22normal(s string) string {
	n := locale.Normalize(s)
	sym.ObserveStr("normal", n)
	llCC(n)
	if n == "und_ZZ" {
		return n // a private-use name (x-...) names no language
	}
	sym.Assert(locale.Normalize(n) == n, "not idempotent")
	return n
}

// H_C22_lang: every two- or three-letter language, in any case, with any suffix.
func H_C22_lang() {
	l := letters(2)
	if sym.Thorough() && sym.Choose(2) == 1 {
		l = sym.StringIn(1, "fiz") + l
	}
	n := c22normal(l)
	v := l
	switch sym.Choose(5) {
	case 4: // whatever follows
		v = l + []string{".", "@"}[sym.Choose(2)] + sym.String(3)
	case 0:
		v = mix(l, 7)
	case 1:
		v = mix(l, 1)
	case 2:
		v = l + []string{".UTF-8", "."}[sym.Choose(2)]
	case 3:
		v = mix(l, 2) + []string{".ISO-8859-1", ".BIG5", ".koi8-r", "@latin", ".1252"}[sym.Choose(5)]
	}
	sym.Assert(locale.Normalize(v) == n, "depends on case or encoding")
}

// H_C22_region: languages with every region.
func H_C22_region() {
	l := []string{"zh", "iw", "xx"}[sym.Choose(3)]
	if sym.Thorough() {
		l = []string{"zh", "iw", "xx", "pt", "sr", "no", "mo", "fil"}[sym.Choose(8)]
	}
	r := mix(letters(2), 3)
	if sym.Choose(4) == 0 {
		r = "4" + sym.StringIn(1, "0123456789") + "9"
		if sym.Thorough() {
			r = sym.StringIn(1, "0124") + sym.StringIn(2, "0123456789")
		}
	}
	n := c22normal(l + "_" + r)
	v := ""
	if len(r) == 3 {
		v = mix(l, 1) + "-" + r + ".UTF-8"
	} else if !sym.Thorough() {
		v = mix(l, 1) + "-" + mix(r, 2) + ".UTF-8"
	} else {
		switch sym.Choose(4) {
		case 0:
			v = l + "-" + r
		case 1:
			v = mix(l, 1) + "_" + r + ".UTF-8"
		case 2:
			v = l + "-" + mix(r, 3)
		case 3:
			v = mix(l, 3) + "-" + mix(r, 1) + ".utf8"
		}
	}
	sym.Assert(locale.Normalize(v) == n, "depends on separator, case or encoding")
}

// H_C22_script: names with a script.
func H_C22_script() {
	l := []string{"zh", "sr", "uz", "en", "az"}[sym.Choose(5)]
	s := []string{"Hans", "Hant", "Latn", "Cyrl", "Arab"}[sym.Choose(5)]
	r := []string{"", "_" + mix(letters(2), 3)}[sym.Choose(2)]
	n := c22normal(l + "_" + s + r)
	v := l + "-" + s + r
	switch sym.Choose(3) {
	case 0:
		v = l + "-" + mix(s, 1)
		if r != "" {
			v += "-" + r[1:]
		}
	case 1:
		v += ".UTF-8"
	}
	sym.Assert(locale.Normalize(v) == n, "depends on separator, case or encoding")
	if r == "" && l == "zh" && s == "Hant" {
		sym.Assert(n == "zh_TW", "traditional Chinese")
	}
}

// H_C22_bytes: any short text gives a well-formed name.
func H_C22_bytes() {
	s := sym.String(sym.Choose(3))
	if sym.Thorough() && sym.Choose(2) == 1 {
		s = sym.String(1) + sym.StringIn(2, "-_.@xZ0")
	}
	c22normal(s)
}

// H_C22_found: a catalogue added under one spelling is found under another.
func H_C22_found() {
	langs := []string{"zh", "en"}
	if sym.Thorough() {
		langs = append(langs, "fr", "de", "sr")
	}
	l := langs[sym.Choose(len(langs))]
	r := ""
	if sym.Choose(2) == 1 {
		r = "C" + mix(letters(1), 1)
		if sym.Thorough() {
			r = mix(letters(2), 3)
		}
	}
	spell := func() string {
		if r == "" {
			return []string{l, mix(l, 3), l + ".UTF-8", mix(l, 1)}[sym.Choose(4)]
		}
		return []string{l + "_" + r, l + "-" + r, mix(l, 3) + "_" + mix(r, 3), l + "_" + r + ".UTF-8", l + "-" + mix(r, 1) + ".utf8"}[sym.Choose(5)]
	}
	a, b := spell(), spell()
	ts := t.NewTranslations()
	x := letters(1)
	ts.BindFS("d", new(memFS).add("a.po", poText(a, "", "m", "tr"+x)))
	ts.SetDomain("d")
	ts.SetLocale(b)
	sym.Assert(ts.T("m") == "tr"+x, "catalogue not found under an equivalent spelling")
	sym.Assert(ts.UsedLocale() == ts.Locale(), "used locale")
	sym.Assert(ts.L(a).Locale() == ts.Locale(), "equivalent spellings give different locales")
	got := ts.L(a).Locale()
	sym.ObserveStr("locale", got)
	llCC(got)
}

// H_C22_default: the empty locale is the system default, always.
func H_C22_default() {
	ts := t.NewTranslations()
	def := ts.Locale()
	sym.Assert(def == locale.GetDefault(), "default locale")
	llCC(def)
	ts.SetLocale(letters(2))
	ts.SetLocale("")
	sym.Assert(ts.Locale() == def, "empty locale is not the default")
	sym.Assert(ts.L("").Locale() == def, "empty locale is not the default")
}

var c22known = [][2]string{
	{"zh", "zh_CN"}, {"zh_TW", "zh_TW"}, {"zh-hant", "zh_TW"}, {"zh-Hans", "zh_CN"}, {"ZH_hk", "zh_HK"}, {"zh-Hant-HK", "zh_HK"}, {"zh-Hant-TW.UTF-8", "zh_TW"}, {"zh_Hans_SG", "zh_SG"},
	{"en", "en_US"}, {"en-gb", "en_GB"}, {"EN_au.utf8", "en_AU"}, {"pt", "pt_BR"}, {"pt_pt", "pt_PT"}, {"fr", "fr_FR"}, {"fr_ca", "fr_CA"},
	{"sr-Latn", "sr_RS"}, {"sr-Latn-ME", "sr_ME"}, {"de_AT@euro", "de_AT"}, {"de", "de_DE"}, {"es-419", "es_419"}, {"fil", "fil_PH"}, {"fi", "fi_FI"},
}

// H_C22_history: a name means the same whatever names came before it.
func H_C22_history() {
	a, b := c22known[sym.Choose(len(c22known))], c22known[sym.Choose(len(c22known))]
	ts := t.NewTranslations()
	switch sym.Choose(3) {
	case 0:
		sym.Assert(locale.Normalize(a[0]) == a[1], "normal form")
		sym.Assert(locale.Normalize(b[0]) == b[1], "normal form after another")
	case 1:
		ts.SetLocale(a[0])
		ts.SetLocale(b[0])
		sym.Assert(ts.Locale() == b[1], "locale set after another")
		ts.SetLocale(a[1])
		sym.Assert(ts.Locale() == a[1] && ts.L(b[0]).Locale() == b[1] && ts.Locale() == a[1], "locale")
	case 2:
		ts.SetSourceCodeLocale(a[0])
		ts.SetSourceCodeLocale(b[0])
		sym.Assert(ts.SourceCodeLocale() == b[1], "source locale")
		ts.SetSourceCodeLocale(mix(a[1], 3))
		sym.Assert(ts.SourceCodeLocale() == a[1], "source locale in other case")
	}
}

// H_C22_words: texts of the code as names, with a suffix.
func H_C22_words() {
	w := sym.Word("", "text", 40)
	n := c22normal(w)
	if w != "" && !strings.ContainsAny(w, ".@") {
		sym.Assert(locale.Normalize(w+".UTF-8") == n, "depends on encoding")
	}
	ts := t.NewTranslations()
	ts.SetLocale("fr")
	ts.SetLocale(w)
	if w == "" {
		n = locale.GetDefault()
	}
	sym.Assert(ts.Locale() == n, "locale set")
	ts.SetSourceCodeLocale(w)
	ts.SetLocale("zh")
	sym.Assert(ts.Locale() == "zh_CN", "locale set after another")
}

// H_C22_size: long names.
func H_C22_size() {
	k := sym.Size("", 1, 3000)
	switch sym.Choose(3) {
	case 0:
		c22normal(strings.Repeat("x", k))
	case 1:
		sym.Assert(locale.Normalize("zh_TW."+strings.Repeat("x", k)) == "zh_TW", "depends on encoding")
	case 2:
		c22normal("zh-TW" + strings.Repeat("-x", k%300))
	}
}
