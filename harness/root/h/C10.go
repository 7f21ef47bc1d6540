package h

import (
	"io/fs"

	"github.com/youthlin/t"
	"github.com/youthlin/t/zzverif/sym"
)

// registry is what both a translation set and the package offer.
type registry interface {
	BindFS(domain string, fsys fs.FS)
	RemoveDomain(domain string) bool
	ClearDomains()
	SetDomain(domain string)
}

type pkgRegistry struct{}

func (pkgRegistry) BindFS(domain string, fsys fs.FS) { t.BindFS(domain, fsys) }
func (pkgRegistry) RemoveDomain(domain string) bool  { return t.RemoveDomain(domain) }
func (pkgRegistry) ClearDomains()                    { t.ClearDomains() }
func (pkgRegistry) SetDomain(domain string)          { t.SetDomain(domain) }

func c10step(r registry, m *tset, dom func() string, label string, kinds int) {
	switch op := sym.Choose(3 + kinds); op {
	case 0:
		d := dom()
		r.SetDomain(d)
		m.dom = d
	case 1:
		d := dom()
		sym.Assert(r.RemoveDomain(d) == m.remove(d), "remove does not report whether the domain was loaded")
	case 2:
		r.ClearDomains()
		m.clear()
	default:
		d := dom()
		f, c := tree(op-3, label)
		r.BindFS(d, f)
		m.bind(d, c)
	}
}

// pkgView reads the global set through the package-level functions.
func pkgView(m *tset) {
	sym.Assert(t.Domain() == m.dom, "global domain")
	sym.Assert(t.Locale() == m.loc, "global locale")
	sym.Assert(t.SourceCodeLocale() == m.src, "global source locale")
	sym.Assert(len(t.Domains()) == len(m.names), "number of global domains")
	for _, d := range m.names {
		sym.Assert(t.HasDomain(d), "global domain missing")
	}
	sym.Assert(t.HasDomain("zz") == false, "unknown domain reported as loaded")
}

// H_C10_ops: histories over three domain names, on a set or on the global one.
func H_C10_ops() {
	names := []string{"a", "default", "ab", ""}
	m := &tset{dom: "default", loc: "zh_CN", src: "en_US"}
	ts := t.NewTranslations()
	ts.SetLocale("zh_CN")
	var r registry = ts
	k, kinds := 3, 2
	if sym.Thorough() {
		k = 4
	}
	switch sym.Choose(3) {
	case 1:
		k, kinds = k+1, 1
		names = names[:3]
	case 2:
		t.SetGlobal(ts)
		r = pkgRegistry{}
		k--
		kinds = 5
	}
	for i := 0; i < k; i++ {
		c10step(r, m, func() string { return names[sym.Choose(len(names))] }, string(rune('0'+i)), kinds)
		if kinds > 1 || i == k-1 {
			m.check(ts, "history")
		}
	}
	if kinds == 5 {
		pkgView(m)
	}
	for _, d := range names {
		sym.Assert(ts.HasDomain(d) == (m.find(d) >= 0), "whether a domain is loaded")
		tr, ok := ts.Get(d)
		sym.Assert(ok == (m.find(d) >= 0) && (tr != nil) == ok, "getting a domain")
	}
}

// H_C10_names: the same for arbitrary names, each step with its own.
func H_C10_names() {
	m := &tset{dom: "default", loc: "zh_CN", src: "en_US"}
	ts := t.NewTranslations()
	ts.SetLocale("zh_CN")
	k := 4
	if sym.Thorough() {
		k = 5
	}
	for i := 0; i < k; i++ {
		c10step(ts, m, func() string { return name(2) }, string(rune('0'+i)), 1)
	}
	m.check(ts, "history")
	q := name(1)
	sym.Assert(ts.HasDomain(q) == (m.find(q) >= 0), "whether a domain is loaded")
	sym.ObserveBool("has", ts.HasDomain(q))
	sym.ObserveStr("domain", ts.Domain())
}

// H_C10_many: many domains bound, some removed again.
func H_C10_many() {
	m := &tset{dom: "default", loc: "zh_CN", src: "en_US"}
	ts := t.NewTranslations()
	ts.SetLocale("zh_CN")
	k := []int{9, 20}[sym.Choose(2)]
	dom := func(i int) string { return "d" + string(rune('a'+i)) }
	for i := 0; i < k; i++ {
		f, c := tree(0, dom(i))
		ts.BindFS(dom(i), f)
		m.bind(dom(i), c)
	}
	cur := sym.Choose(k)
	ts.SetDomain(dom(cur))
	m.dom = dom(cur)
	m.check(ts, "many domains")
	gone := sym.Choose(k)
	for i := gone; i < k; i += 3 {
		sym.Assert(ts.RemoveDomain(dom(i)) == m.remove(dom(i)), "result of remove")
		sym.Assert(ts.RemoveDomain(dom(i)) == false, "removed twice")
	}
	m.check(ts, "after removing some")
	f, c := tree(2, "again")
	ts.BindFS(dom(gone), f)
	m.bind(dom(gone), c)
	m.check(ts, "after binding again")
}

// H_C10_words: texts of the code as domain names.
func H_C10_words() {
	w := sym.Word("", "any", 60)
	m := &tset{dom: "default", loc: "zh_CN", src: "en_US"}
	ts := t.NewTranslations()
	ts.SetLocale("zh_CN")
	names := []string{w, w + "1", "default"}
	for i := 0; i < 3; i++ {
		c10step(ts, m, func() string { return names[0] }, string(rune('0'+i)), 2)
		names[0], names[1] = names[1], names[0]
		m.check(ts, "history")
	}
	sym.Assert(ts.HasDomain(w) == (m.find(w) >= 0), "whether a domain is loaded")
}

// H_C10_size: as many domains, or names as long, as the constants of the code say.
func H_C10_size() {
	m := &tset{dom: "default", loc: "zh_CN", src: "en_US"}
	ts := t.NewTranslations()
	ts.SetLocale("zh_CN")
	if sym.Choose(2) == 0 {
		k := sym.Size("", 1, 5000)
		x := letters(1)
		names := []string{sized(k, x), sized(k, "0"), sized(k, "0") + "z"}
		for i := 0; i < 3; i++ {
			f, c := tree(0, itoa(i))
			ts.BindFS(names[i], f)
			m.bind(names[i], c)
		}
		d := names[sym.Choose(3)]
		ts.SetDomain(d)
		m.dom = d
		m.check(ts, "long names")
		sym.Assert(ts.RemoveDomain(names[1]) == m.remove(names[1]), "result of remove")
		m.check(ts, "long names, one removed")
		return
	}
	max := 40
	if sym.Thorough() {
		max = 300
	}
	k := sym.Size("", 1, max)
	for i := 0; i < k; i++ {
		f, c := tree(0, "d")
		ts.BindFS("d"+itoa(i), f)
		m.bind("d"+itoa(i), c)
	}
	ts.SetDomain("d" + itoa(k-1))
	m.dom = "d" + itoa(k-1)
	m.check(ts, "many domains")
	sym.Assert(ts.RemoveDomain(m.dom) == m.remove(m.dom), "result of remove")
	m.check(ts, "current domain removed")
	ts.ClearDomains()
	m.clear()
	m.check(ts, "cleared")
}
