package h

import (
	"context"

	"github.com/youthlin/t"
	"github.com/youthlin/t/zzverif/sym"
)

type handle struct {
	ts *t.Translations
	m  *tset
}

var c09locales = [][2]string{{"zh_CN", "zh_CN"}, {"fr", "fr_FR"}, {"en_GB", "en_GB"}}

// step applies one operation to a handle and its model.
func (h *handle) step(label string, doms []string) {
	switch op := sym.Choose(7); op {
	case 0:
		d := doms[sym.Choose(len(doms))]
		h.ts.SetDomain(d)
		h.m.dom = d
	case 1:
		l := c09locales[sym.Choose(len(c09locales))]
		h.ts.SetLocale(l[0])
		h.m.loc = l[1]
	case 2, 3:
		d := doms[sym.Choose(len(doms))]
		fsys, cat := tree(op-2, label)
		if sym.Thorough() && op == 2 && sym.Choose(2) == 1 { // PO files in two languages
			fsys, cat = tree(2, label)
		}
		h.ts.BindFS(d, fsys)
		h.m.bind(d, cat)
	case 4:
		d := doms[sym.Choose(len(doms))]
		sym.Assert(h.ts.RemoveDomain(d) == h.m.remove(d), "result of remove")
	case 5:
		h.ts.ClearDomains()
		h.m.clear()
	case 6:
		h.ts.SetSourceCodeLocale("de")
		h.m.src = "de_DE"
	}
}

// derive gives a handle derived from o.
func (o *handle) derive(doms []string, global bool) *handle {
	n := &handle{m: o.m.copy()}
	kinds := 2
	if global {
		kinds = 8
	}
	d := doms[sym.Choose(len(doms))]
	l := c09locales[sym.Choose(2)]
	k := sym.Choose(kinds)
	if k == 6 && d == doms[0] { // the locale every set starts with
		l = [2]string{"en_US", "en_US"}
	}
	switch k {
	case 0:
		n.ts = o.ts.D(d)
		n.m.dom = d
	case 1:
		n.ts = o.ts.L(l[0])
		n.m.loc = l[1]
	case 2:
		n.ts = t.Global()
	case 3:
		n.ts = t.WithContext(context.Background())
	case 4:
		n.ts = t.WithContext(t.SetCtxLocale(context.Background(), l[0]))
		n.m.loc = l[1]
	case 5:
		n.ts = t.WithContext(t.SetCtxDomain(context.Background(), d))
		n.m.dom = d
	case 6:
		n.ts = t.WithContext(t.SetCtxDomain(t.SetCtxLocale(context.Background(), l[0]), d))
		n.m.dom, n.m.loc = d, l[1]
	case 7:
		n.ts = t.D(d).L(l[0])
		n.m.dom, n.m.loc = d, l[1]
	}
	return n
}

func origin(doms []string) *handle {
	o := &handle{ts: t.NewTranslations(), m: &tset{dom: "default", loc: "zh_CN", src: "en_US"}}
	o.ts.SetLocale("zh_CN")
	for i, k := range []int{0, 2} {
		f, c := tree(k, "o")
		o.ts.BindFS(doms[i], f)
		o.m.bind(doms[i], c)
	}
	o.ts.SetDomain(doms[0])
	o.m.dom = doms[0]
	return o
}

// H_C09_ops: derive, then operate on either handle; both answer as their own history says.
func H_C09_ops() {
	doms := []string{"a", "b", "default"}
	o := origin(doms)
	global := sym.Choose(2) == 1
	if global {
		t.SetGlobal(o.ts)
	}
	n := o.derive(doms, global)
	o.m.check(o.ts, "origin after deriving")
	n.m.check(n.ts, "derived handle")
	k := 2
	for i := 0; i < k; i++ {
		if sym.Choose(2) == 0 {
			o.step(string(rune('0'+i)), doms)
		} else {
			n.step(string(rune('0'+i)), doms)
		}
		o.m.check(o.ts, "origin")
		n.m.check(n.ts, "derived handle")
	}
}

// H_C09_names: the same with arbitrary domain names, operating on both in turn.
func H_C09_names() {
	a, b := name(1), name(1)
	o := origin([]string{a, b})
	n := o.derive([]string{name(1)}, false)
	if sym.Choose(2) == 0 {
		o, n = n, o
	}
	doms := []string{name(1)}
	o.step("0", doms)
	n.step("1", doms)
	if sym.Thorough() {
		o.step("2", doms)
	}
	o.m.check(o.ts, "changed handle")
	n.m.check(n.ts, "other handle")
}

// H_C09_chain: derivations of derivations, with changes in between.
func H_C09_chain() {
	doms := []string{"a", "b"}
	o := origin(doms)
	x := o.derive(doms, false)
	x.step("0", doms)
	y := x.derive(doms[:1], false)
	y.step("1", doms)
	o.m.check(o.ts, "origin")
	x.m.check(x.ts, "first handle")
	y.m.check(y.ts, "second handle")
}

// H_C09_context: contexts carry the last value set, and nothing else does.
func H_C09_context() {
	l1, l2, d := name(1), name(1), name(1)
	ctx := context.Background()
	if _, ok := t.GetCtxLocale(ctx); ok {
		sym.Fail("locale in an empty context")
	}
	if _, ok := t.GetCtxDomain(ctx); ok {
		sym.Fail("domain in an empty context")
	}
	c1 := t.SetCtxLocale(ctx, l1)
	if _, ok := t.GetCtxDomain(c1); ok {
		sym.Fail("locale taken for a domain")
	}
	c2 := t.SetCtxDomain(c1, d)
	c3 := t.SetCtxLocale(c2, l2)
	g, ok := t.GetCtxLocale(c1)
	sym.Assert(ok && g == l1, "locale of the first context")
	g, ok = t.GetCtxLocale(c2)
	sym.Assert(ok && g == l1, "locale of the second context")
	g, ok = t.GetCtxLocale(c3)
	sym.Assert(ok && g == l2, "locale of the third context")
	g, ok = t.GetCtxDomain(c3)
	sym.Assert(ok && g == d, "domain of the third context")
	t.SetGlobal(t.NewTranslations())
	w := t.WithContext(c3)
	sym.Assert(w.Domain() == d, "domain of the derived set")
	sym.Assert(t.Domain() == t.DefaultDomain, "global domain changed")
	if l2 == "" {
		sym.Assert(w.Locale() == t.Locale(), "default locale")
	}
	sym.ObserveStr("domain", w.Domain())
}

// H_C09_many: handles of sets with many domains, and many handles.
func H_C09_many() {
	k := []int{9, 17}[sym.Choose(2)]
	dom := func(i int) string { return "d" + string(rune('a'+i)) }
	o := &handle{ts: t.NewTranslations(), m: &tset{dom: "default", loc: "zh_CN", src: "en_US"}}
	o.ts.SetLocale("zh_CN")
	for i := 0; i < k; i++ {
		f, c := tree(2*(i%2), dom(i))
		o.ts.BindFS(dom(i), f)
		o.m.bind(dom(i), c)
	}
	hs := []*handle{o}
	doms := []string{dom(0), dom(k - 1), "new"}
	for i := 0; i < 4+2*b2int(sym.Thorough()); i++ { // a chain of handles
		p := hs[len(hs)-1]
		n := &handle{m: p.m.copy()}
		if i%2 == 0 {
			n.ts = p.ts.D(dom(i))
			n.m.dom = dom(i)
		} else {
			n.ts = p.ts.L("fr")
			n.m.loc = "fr_FR"
		}
		hs = append(hs, n)
	}
	hs[sym.Choose(len(hs))].step("x", doms)
	for _, h := range hs {
		h.m.check(h.ts, "handle")
	}
}

// H_C09_words: texts of the code as domain names.
func H_C09_words() {
	w := sym.Word("", "any", 40)
	doms := []string{w, w + "x"}
	o := origin(doms)
	global := sym.Choose(2) == 1
	if global {
		t.SetGlobal(o.ts)
	}
	n := &handle{m: o.m.copy()}
	if n.ts = o.ts.D(w + "x"); global {
		n.ts = t.WithContext(t.SetCtxDomain(context.Background(), w+"x"))
	}
	n.m.dom = w + "x"
	if sym.Choose(2) == 0 {
		sym.Assert(n.ts.RemoveDomain(w) == n.m.remove(w), "result of remove")
	} else {
		fsys, cat := tree(2, "n")
		n.ts.BindFS(w, fsys)
		n.m.bind(w, cat)
	}
	o.m.check(o.ts, "origin")
	n.m.check(n.ts, "derived handle")
	o.ts.SetDomain(w)
	o.m.dom = w
	n.m.check(n.ts, "derived handle")
	o.m.check(o.ts, "origin")
}

// H_C09_size: as many domains, or handles in a row, as the constants of the code say.
func H_C09_size() {
	max := 24
	if sym.Thorough() {
		max = 130
	}
	k := sym.Size("", 2, max)
	dom := func(i int) string { return "d" + itoa(i) }
	o := origin([]string{dom(0), dom(1)})
	n := &handle{m: o.m.copy()}
	switch sym.Choose(3) {
	case 0: // domains before
		for i := 2; i < k; i++ {
			f, c := tree(0, "o")
			o.ts.BindFS(dom(i), f)
			o.m.bind(dom(i), c)
		}
		n.ts, n.m = o.ts.L("zh_CN"), o.m.copy()
	case 1: // domains after, on the derived handle
		n.ts = o.ts.L("zh_CN")
		for i := 2; i < k; i++ {
			f, c := tree(0, "n")
			n.ts.BindFS(dom(i), f)
			n.m.bind(dom(i), c)
		}
	case 2: // handles of handles
		n.ts = o.ts
		for i := 0; i < k; i++ {
			n.ts = n.ts.L("zh_CN")
		}
	}
	if sym.Choose(2) == 0 {
		o, n = n, o
	}
	f, c := tree(2, "last")
	n.ts.BindFS(dom(1), f)
	n.m.bind(dom(1), c)
	sym.Assert(n.ts.RemoveDomain(dom(0)) == n.m.remove(dom(0)), "result of remove")
	o.m.check(o.ts, "other handle")
	n.m.check(n.ts, "changed handle")
}
