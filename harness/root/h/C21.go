package h

import (
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/zzverif/sym"
)

// c21file adds a file of any kind to a tree and gives the language and text it
// contributes ("" if none) and whether it is a PO file.
func c21file(m *memFS, path, text string, rich bool) (lang string, po bool, val string) {
	val = text
	langs := [][2]string{{"zh-cn", "zh_CN"}, {"fr", "fr_FR"}, {"", ""}}
	l := langs[sym.Choose(2+b2int(rich))]
	e := memEntry{}
	switch sym.Choose(2 + b2int(rich)) {
	case 0:
		po, e.path, e.data = true, path+".po", poText(l[0], "", "m", text)
	case 1:
		e.path = path + ".mo"
		e.data = string(moImage([]*msg{{str: "Language: " + l[0] + "\n"}, {id: "m", str: text}}, rich, moOrders[0], 0, false))
	case 2:
		ext := []string{".txt", ".po.bak", ".mo~"}[sym.Choose(3)]
		l[1], e.path, e.data = "", path+ext, poText(l[0], "", "m", text)
	}
	switch f := sym.Choose(7); f {
	case 6: // no messages
		if e.data = poText(l[0], ""); !po {
			e.data = string(moImage([]*msg{{str: "Language: " + l[0] + "\n"}}, rich, moOrders[0], 0, false))
		}
		val = "m"

	case 1, 2, 3, 4: // cannot be opened or read
		e.fault, l[1] = f, ""
	case 5:
		l[1] = ""
		e.data = []string{e.data + "x", e.data[:len(e.data)-1-len(text)], ""}[sym.Choose(1+2*b2int(rich))]
		if !po && len(e.data) > 4 { // trailing bytes do no harm in an MO file
			e.data = e.data[1:]
		}
	}
	m.files = append(m.files, e)
	return l[1], po, val
}

// c21want says which texts may answer for a language.
type c21want struct{ po, mo []string }

func (w *c21want) add(po bool, text string) {
	if po {
		w.po = append(w.po, text)
	} else {
		w.mo = append(w.mo, text)
	}
}

func c21check(ts *t.Translations, domain string, want map[string]*c21want, prev string) {
	loaded := false
	for _, w := range want {
		if len(w.po)+len(w.mo) > 0 {
			loaded = true
		}
	}
	ts = ts.D(domain)
	for _, lang := range []string{"zh_CN", "fr_FR"} {
		got := ts.L(lang).T("m")
		sym.ObserveStr("got", got)
		w := want[lang]
		if !loaded {
			exp := "m"
			if lang == "zh_CN" {
				exp = prev
			}
			sym.Assert(got == exp, "what was bound before does not stay in force")
			continue
		}
		allowed := []string{"m"}
		if w != nil && len(w.po) > 0 {
			allowed = w.po
		} else if w != nil && len(w.mo) > 0 {
			allowed = w.mo
		}
		ok := false
		for _, a := range allowed {
			ok = sym.Or(ok, got == a)
		}
		sym.Assert(ok, "not the catalogue the tree holds for the language")
	}
	sym.Assert(ts.HasDomain(domain) == (loaded || prev != "m"), "domain loaded or not")
}

func c21run(paths []string, rich bool, dirFault bool) {
	m := new(memFS)
	want := map[string]*c21want{}
	if dirFault {
		m.files = append(m.files, memEntry{path: "d", dir: true, fault: []int{0, 1, 5}[sym.Choose(3)]})
	}
	for i, p := range paths {
		text := string(rune('0'+i)) + letters(1)
		lang, po, val := c21file(m, p, text, rich)
		if dirFault && m.files[0].fault != 0 && strings.HasPrefix(p, "d/") {
			lang = "" // out of reach
		}
		if lang != "" {
			if want[lang] == nil {
				want[lang] = new(c21want)
			}
			want[lang].add(po, val)
		}
	}
	ts := t.NewTranslations()
	ts.SetLocale("zh_CN")
	prev := "m"
	if sym.Choose(2) == 1 {
		prev = "before" + letters(1)
		ts.BindFS("dom", new(memFS).add("z.po", poText("zh_CN", "", "m", prev)))
	}
	ts.BindFS("dom", m)
	c21check(ts, "dom", want, prev)
}

// H_C21_two: two files side by side or below one another, every kind and fault.
func H_C21_two() {
	ps := [][]string{{"a", "b"}, {"d/a", "b"}, {"a", "d/e/a"}}[sym.Choose(3)]
	c21run(ps, sym.Thorough(), false)
}

// H_C21_one: one file of every kind, anywhere, with every fault.
func H_C21_one() {
	ps := [][]string{{"a"}, {"d/e/f/x.po/a"}, {".hidden/.a"}}[sym.Choose(3)]
	c21run(ps, true, false)
}

// H_C21_three: three files, and a directory that may be unreadable.
func H_C21_three() {
	if sym.Thorough() {
		c21run([]string{"a", "d/b", "e"}, false, true)
		return
	}
	c21run([]string{"d/b", "e"}, false, true)
}

// H_C21_pieces: readers that give the data in small pieces.
func H_C21_pieces() {
	m := new(memFS)
	x := letters(1)
	po := sym.Choose(2) == 1
	if po {
		m.files = append(m.files, memEntry{path: "a.po", data: poText("fr", "", "m", x), fault: odd[sym.Choose(len(odd))]})
	} else {
		m.files = append(m.files, memEntry{path: "a.mo", data: string(moImage([]*msg{{str: "Language: fr\n"}, {id: "m", str: x}}, true, moOrders[1], 1, true)), fault: odd[sym.Choose(len(odd))]})
	}
	ts := t.NewTranslations()
	ts.BindFS("dom", m)
	c21check(ts, "dom", map[string]*c21want{"fr_FR": {po: []string{x}}}, "m")
}

// H_C21_path: the same from the real file system: a directory, a single file, a missing path.
func H_C21_path() {
	t.SetGlobal(t.NewTranslations())
	want := map[string]*c21want{}
	path := sym.Path("tree")
	kind := sym.Choose(4)
	t1, t2 := letters(2), letters(2)
	fr, zh := poText("fr", "", "m", t1), string(moImage([]*msg{{str: "Language: zh_CN\n"}, {id: "m", str: t2}}, false, moOrders[0], 0, false))
	switch kind {
	case 0: // directory
		sym.WriteFile("tree/x/fr.po", fr)
		sym.WriteFile("tree/zh.mo", zh)
		want["fr_FR"], want["zh_CN"] = &c21want{po: []string{t1}}, &c21want{mo: []string{t2}}
	case 1: // one PO file
		sym.WriteFile("tree.po", fr)
		path = sym.Path("tree.po")
		want["fr_FR"] = &c21want{po: []string{t1}}
	case 2: // one MO file
		sym.WriteFile("tree.mo", zh)
		path = sym.Path("tree.mo")
		want["zh_CN"] = &c21want{mo: []string{t2}}
	}
	if sym.Choose(2) == 1 {
		t.Bind("dom", path)
		c21check(t.Global(), "dom", want, "m")
	} else {
		t.Load(path)
		c21check(t.Global(), t.DefaultDomain, want, "m")
	}
}

// H_C21_many: many files in many languages in deep and wide trees, some of them bad.
func H_C21_many() {
	langs := [][2]string{{"zh-cn", "zh_CN"}, {"zh_TW", "zh_TW"}, {"en", "en_US"}, {"en_GB", "en_GB"}, {"fr", "fr_FR"}, {"fr_CA", "fr_CA"}, {"pt", "pt_BR"}, {"pt_PT", "pt_PT"}, {"de", "de_DE"}, {"ja", "ja_JP"}, {"es_MX", "es_MX"}, {"ko", "ko_KR"}}
	m := new(memFS)
	x := letters(1)
	deep := sym.Choose(2) == 1
	bad := sym.Choose(4)
	dir := ""
	want := map[string]string{}
	for i, l := range langs {
		if deep && i%2 == 0 {
			dir += "d" + itoa(i) + "/"
		}
		name, text := dir+"f"+itoa(i), "t"+itoa(i)+x
		po := i%3 != 1
		e := memEntry{}
		if po {
			e = memEntry{path: name + ".po", data: poText(l[0], "", "m", text)}
		}
		if i%3 != 0 { // with i%3 == 2 both: the PO file wins
			s := "mo" + text
			if !po {
				s = text
			}
			m.add(name+".mo", string(moImage([]*msg{{str: "Language: " + l[0] + "\n"}, {id: "m", str: s}}, i%2 == 0, moOrders[0], 0, false)))
			want[l[1]] = s
		}
		if bad > 0 && i%4 == bad {
			switch i % 3 {
			case 0:
				e.data = "x" + e.data
			case 2:
				e.fault = bad
			}
			po = false
		} else if po {
			want[l[1]] = text
		}
		if e.path != "" {
			m.files = append(m.files, e)
		}
	}
	ts := t.NewTranslations()
	ts.BindFS("dom", m)
	ts.SetDomain("dom")
	n := 1
	for _, l := range langs {
		w := want[l[1]]
		if w == "" {
			w = "m"
		} else if l[1] != "en_US" {
			n++
		}
		sym.Assert(ts.L(l[1]).T("m") == w, "not the catalogue the tree holds for the language")
	}
	sym.Assert(len(ts.Locales()) == n, "number of languages")
}

// H_C21_words: texts of the code in file and directory names.
func H_C21_words() {
	w := sym.Word("", "text", 30)
	if strings.Contains(w, "/") || w == "." || w == ".." || w == "" {
		return
	}
	ts := t.NewTranslations()
	m := new(memFS)
	x := letters(1)
	m.add(w+"/"+w+".po", poText("fr", "", "m", x+"fr"))
	m.add(w+"x.mo", string(moImage([]*msg{{str: "Language: zh_CN\n"}, {id: "m", str: x + "zh"}}, false, moOrders[0], 0, false)))
	want := map[string]*c21want{"fr_FR": {po: []string{x + "fr"}}, "zh_CN": {mo: []string{x + "zh"}}}
	if s := w + "z"; !strings.HasSuffix(s, ".po") && !strings.HasSuffix(s, ".mo") {
		m.add(s, poText("zh_CN", "", "m", "other"))
	}
	switch sym.Choose(3) {
	case 0:
		ts.BindFS("dom", m)
		c21check(ts, "dom", want, "m")
	case 1:
		ts.BindFS(w, m)
		c21check(ts, w, want, "m")
	case 2: // texts that are not catalogues
		m.add("a.po", w)
		m.add("z.po", poText("zh_CN", "", "m", x)+w)
		ts.BindFS("dom", m)
		sym.Assert(ts.D("dom").L("fr").T("m") == x+"fr", "not the catalogue the tree holds for the language")
	}
}

// H_C21_size: trees as deep and wide, and names and files as long, as the constants
// of the code say.
func H_C21_size() {
	x := letters(1)
	m := new(memFS)
	want := map[string]*c21want{"fr_FR": {po: []string{x}}}
	switch sym.Choose(5) {
	case 4: // a large file
		k := sym.Size("t", 1, 70000)
		m.add("a.po", strings.Repeat("# "+strings.Repeat("n", 61)+"\n", k/64+1)+poText("fr", "", "m", x))
		m.add("b.mo", string(moImage([]*msg{{str: "Language: zh_CN\n"}, {id: "a", str: strings.Repeat("n", k%80000)}, {id: "m", str: x}}, false, moOrders[0], 0, false)))
		want["zh_CN"] = &c21want{mo: []string{x}}
	case 0:
		k := sym.Size("t", 1, 40)
		m.add(strings.Repeat("d/", k)+"a.po", poText("fr", "", "m", x))
	case 1:
		k := sym.Size("t", 1, 70)
		for i := 0; i < k; i++ {
			m.add("f"+itoa(i)+".txt", "x")
		}
		m.add("g.po", poText("fr", "", "m", x))
	case 2:
		k := sym.Size("t", 1, 3000)
		m.add(strings.ReplaceAll(sized(k, "n"), " ", "_")+".po", poText("fr", "", "m", x))
	case 3:
		k := sym.Size("", 1, 5000)
		m.add("a.po", poText("fr", "", "a", sized(k, x), "m", x))
	}
	ts := t.NewTranslations()
	ts.BindFS("dom", m)
	c21check(ts, "dom", want, "m")
}
