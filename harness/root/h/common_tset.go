package h

import (
	"sort"

	"github.com/youthlin/t"
	"github.com/youthlin/t/zzverif/sym"
)

// tset is the plain model of a translation set: its selections and, by domain,
// the catalogues (locale -> translation of "m") it holds.
type tset struct {
	dom, loc, src string
	names         []string
	cats          [][][2]string
}

func (s *tset) find(d string) int {
	for i, n := range s.names {
		if n == d {
			return i
		}
	}
	return -1
}

func (s *tset) copy() *tset {
	c := *s
	c.names = append([]string(nil), s.names...)
	c.cats = append([][][2]string(nil), s.cats...)
	return &c
}

func (s *tset) bind(d string, cat [][2]string) {
	if len(cat) == 0 {
		return
	}
	if i := s.find(d); i >= 0 {
		s.cats[i] = cat
		return
	}
	s.names, s.cats = append(s.names, d), append(s.cats, cat)
}

func (s *tset) remove(d string) bool {
	i := s.find(d)
	if i < 0 || d == "" {
		return false
	}
	s.names = append(s.names[:i:i], s.names[i+1:]...)
	s.cats = append(s.cats[:i:i], s.cats[i+1:]...)
	if s.dom == d {
		s.dom = t.DefaultDomain
	}
	return true
}

func (s *tset) clear() {
	s.names, s.cats, s.dom = nil, nil, t.DefaultDomain
}

// check compares everything a set answers with the model.
func (s *tset) check(ts *t.Translations, what string) {
	want, used := "m", s.src
	locales := []string{s.src}
	if i := s.find(s.dom); i >= 0 {
		for _, c := range s.cats[i] {
			if c[0] == s.loc {
				want, used = c[1], c[0]
			}
			if c[0] != s.src {
				locales = append(locales, c[0])
			}
		}
	}
	sort.Strings(locales)
	sym.Assert(ts.T("m") == want, what+": translation")
	sym.Assert(ts.Domain() == s.dom, what+": current domain")
	sym.Assert(ts.Locale() == s.loc, what+": current locale")
	sym.Assert(ts.SourceCodeLocale() == s.src, what+": source locale")
	sym.Assert(ts.UsedLocale() == used, what+": used locale")
	sameList(ts.Locales(), locales)
	got := ts.Domains()
	sym.Assert(len(got) == len(s.names), what+": number of loaded domains")
	for _, d := range s.names {
		sym.Assert(ts.HasDomain(d), what+": loaded domain missing")
		found := false
		for _, g := range got {
			if g == d {
				found = true
			}
		}
		sym.Assert(found, what+": loaded domain not listed")
	}
}

// tree is one of a few file trees; cat is what loading it gives.
func tree(kind int, label string) (*memFS, [][2]string) {
	m := new(memFS)
	label += string([]byte{'a' + sym.Byte()&15})
	switch kind {
	case 0:
		return m.add("zh.po", poText("zh_CN", "", "m", "zh-"+label)), [][2]string{{"zh_CN", "zh-" + label}}
	case 1:
		return m, nil
	case 2:
		m.add("x/fr.po", poText("fr", "", "m", "fr-"+label))
		m.add("zh.po", poText("zh_CN", "", "m", "zh-"+label))
		return m, [][2]string{{"fr_FR", "fr-" + label}, {"zh_CN", "zh-" + label}}
	case 3:
		return m.add("zh.po", "msgid \"a\nnonsense"), nil
	}
	return m.add("zh.txt", poText("zh_CN", "", "m", "no")), nil
}
