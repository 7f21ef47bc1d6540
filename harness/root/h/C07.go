package h

import (
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/zzverif/sym"
)

var c07set *t.Translations

func c07() *t.Translations {
	if c07set == nil {
		ts := t.NewTranslations()
		ts.BindFS("default", new(memFS).add("a.po", "msgid \"\"\nmsgstr \"Language: fr\\nPlural-Forms: nplurals=2; plural=n > 1;\\n\"\n"+
			"msgid \"m\"\nmsgstr \"M\"\n"+
			"msgctxt \"c\"\nmsgid \"m\"\nmsgstr \"CM\"\n"+
			"msgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"P0 %d\"\nmsgstr[1] \"P1 %d\"\n"+
			"msgctxt \"c\"\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"CP0 %d\"\nmsgstr[1] \"CP1 %d\"\n"+
			"msgid \"q\"\nmsgid_plural \"\"\nmsgstr[0] \"Q0 %d\"\nmsgstr[1] \"Q1 %d\"\n"))
		ts.BindFS("other", new(memFS).add("a.po", poText("fr", "", "m", "OTHER", "p", "OTHER")))
		ts.SetLocale("fr")
		c07set = ts
	}
	return c07set
}

func c07args() []any {
	switch sym.Choose(5) {
	case 1:
		return []any{5}
	case 3:
		return []any{7, "x", nil, 'y'}
	case 4:
		return []any{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	case 2:
		return []any{7, "x"}
	}
	return nil
}

func c07text() string { return []string{"m", "p", "q", "u%d", "", "v%v%v%v%v%v"}[sym.Choose(6)] }

// H_C07_set: the short forms of a translation set.
func H_C07_set() {
	ts := c07()
	ctx, id, id2 := []string{"", "c", "z"}[sym.Choose(3)], c07text(), []string{"ps", "", "u%ds"}[sym.Choose(3)]
	args := c07args()
	n64 := sym.Int64()
	n := sym.Int()
	sym.Assert(ts.T(id, args...) == ts.X("", id, args...), "T")
	sym.Assert(ts.N64(id, id2, n64, args...) == ts.XN64("", id, id2, n64, args...), "N64")
	sym.Assert(ts.N(id, id2, n, args...) == ts.XN64("", id, id2, int64(n), args...), "N")
	sym.Assert(ts.N1(id, n, args...) == ts.XN64("", id, "", int64(n), args...), "N1")
	sym.Assert(ts.N1_64(id, n64, args...) == ts.XN64("", id, "", n64, args...), "N1_64")
	sym.Assert(ts.XN(ctx, id, id2, n, args...) == ts.XN64(ctx, id, id2, int64(n), args...), "XN")
	sym.Assert(ts.XN1(ctx, id, n, args...) == ts.XN64(ctx, id, "", int64(n), args...), "XN1")
	sym.Assert(ts.XN1_64(ctx, id, n64, args...) == ts.XN64(ctx, id, "", n64, args...), "XN1_64")
	sym.ObserveStr("x", ts.X(ctx, id, args...))
	sym.ObserveStr("xn", ts.XN64(ctx, id, id2, n64, args...))
}

// H_C07_global: the package-level functions.
func H_C07_global() {
	ts := c07()
	t.SetGlobal(ts)
	ctx, id, id2 := []string{"", "c", "z"}[sym.Choose(3)], c07text(), []string{"ps", "", "u%ds"}[sym.Choose(3)]
	args := c07args()
	n64 := sym.Int64()
	n := sym.Int()
	sym.Assert(t.T(id, args...) == ts.X("", id, args...), "t.T")
	sym.Assert(t.X(ctx, id, args...) == ts.X(ctx, id, args...), "t.X")
	sym.Assert(t.N64(id, id2, n64, args...) == ts.XN64("", id, id2, n64, args...), "t.N64")
	sym.Assert(t.N(id, id2, n, args...) == ts.XN64("", id, id2, int64(n), args...), "t.N")
	sym.Assert(t.N1(id, n, args...) == ts.XN64("", id, "", int64(n), args...), "t.N1")
	sym.Assert(t.N1_64(id, n64, args...) == ts.XN64("", id, "", n64, args...), "t.N1_64")
	sym.Assert(t.XN(ctx, id, id2, n, args...) == ts.XN64(ctx, id, id2, int64(n), args...), "t.XN")
	sym.Assert(t.XN64(ctx, id, id2, n64, args...) == ts.XN64(ctx, id, id2, n64, args...), "t.XN64")
	sym.Assert(t.XN1(ctx, id, n, args...) == ts.XN64(ctx, id, "", int64(n), args...), "t.XN1")
	sym.Assert(t.XN1_64(ctx, id, n64, args...) == ts.XN64(ctx, id, "", n64, args...), "t.XN1_64")
	// D and L on the global set
	sym.Assert(t.D("other").T(id, args...) == ts.D("other").T(id, args...), "t.D")
	sym.Assert(t.L("de").T(id, args...) == ts.L("de").T(id, args...), "t.L")
	sym.Assert(t.D("other").T("m") == "OTHER", "t.D selects the domain")
	sym.Assert(t.L("de").T("m") == "m", "t.L selects the locale")
}

// H_C07_free: arbitrary ids and contexts, also unknown ones.
func H_C07_free() {
	ts := c07()
	t.SetGlobal(ts)
	id, ctx, id2 := name(2), name(1), name(1)
	n := sym.Int64()
	sym.Assert(ts.T(id) == ts.X("", id), "T")
	sym.Assert(t.X(ctx, id) == ts.X(ctx, id), "t.X")
	a := ts.XN64(ctx, id, id2, n)
	sym.Assert(t.XN64(ctx, id, id2, n) == a, "t.XN64")
	sym.Assert(ts.XN(ctx, id, id2, int(n)) == a, "XN")
	sym.Assert(t.XN(ctx, id, id2, int(n)) == a, "t.XN")
	if ctx == "" {
		sym.Assert(ts.N64(id, id2, n) == a, "N64")
		sym.Assert(t.N(id, id2, int(n)) == a, "t.N")
	}
	if id2 == "" {
		sym.Assert(ts.XN1_64(ctx, id, n) == a, "XN1_64")
		sym.Assert(t.XN1(ctx, id, int(n)) == a, "t.XN1")
	}
}

// H_C07_global_state: the package-level state functions.
func H_C07_global_state() {
	ts := c07()
	t.SetGlobal(ts)
	switch sym.Choose(5) {
	case 0:
		t.SetLocale([]string{"de", "", "fr_CA"}[sym.Choose(3)])
	case 1:
		t.SetDomain(name(1))
	case 2:
		t.SetSourceCodeLocale("it")
	case 3:
		t.RemoveDomain([]string{"default", "other", "none", ""}[sym.Choose(4)])
	case 4:
		t.BindFS("third", new(memFS).add("x.po", poText("fr", "", "m", "3")))
	}
	g := t.Global()
	sym.Assert(t.Locale() == g.Locale(), "Locale")
	sym.Assert(t.Domain() == g.Domain(), "Domain")
	sym.Assert(t.UsedLocale() == g.UsedLocale(), "UsedLocale")
	sym.Assert(t.SourceCodeLocale() == g.SourceCodeLocale(), "SourceCodeLocale")
	sym.Assert(t.MostMatchLocale() == g.MostMatchLocale(), "MostMatchLocale")
	sameList(t.Locales(), g.Locales())
	sym.Assert(len(t.Domains()) == len(g.Domains()), "Domains")
	d := name(2)
	sym.Assert(t.HasDomain(d) == g.HasDomain(d), "HasDomain")
	for _, d := range g.Domains() {
		sym.Assert(t.HasDomain(d), "HasDomain of a listed domain")
	}
	sym.Assert(t.T("m") == g.T("m"), "T")
}

// H_C07_mark: the marking helpers return their arguments.
func H_C07_mark() {
	a, b, c := name(2), name(2), name(2)
	sym.Assert(t.Mark.T(a) == a, "Mark.T")
	x, y := t.Mark.N(a, b)
	sym.Assert(x == a && y == b, "Mark.N")
	x, y = t.Mark.X(a, b)
	sym.Assert(x == a && y == b, "Mark.X")
	x, y, z := t.Mark.XN(a, b, c)
	sym.Assert(x == a && y == b && z == c, "Mark.XN")
}

// H_C07_words: texts of the code in every place.
func H_C07_words() {
	w := sym.Word("", "any", 60)
	ctx, id, id2 := "", "p", "ps"
	switch sym.Choose(4) {
	case 0:
		ctx = w
	case 1:
		id = w
	case 2:
		id2 = w
	case 3:
		ctx, id, id2 = w, w, w
	}
	c07forms(ctx, id, id2, nil)
	c07forms(ctx, id, id2, []any{w})
}

// c07forms compares every short form with the general one.
func c07forms(ctx, id, id2 string, args []any) {
	ts := c07()
	t.SetGlobal(ts)
	n := sym.Int64()
	a, b, x := ts.XN64(ctx, id, id2, n, args...), ts.XN64(ctx, id, "", n, args...), ts.X(ctx, id, args...)
	sym.Assert(t.XN64(ctx, id, id2, n, args...) == a && t.XN(ctx, id, id2, int(n), args...) == a && ts.XN(ctx, id, id2, int(n), args...) == a, "XN")
	sym.Assert(t.XN1_64(ctx, id, n, args...) == b && ts.XN1_64(ctx, id, n, args...) == b && t.XN1(ctx, id, int(n), args...) == b && ts.XN1(ctx, id, int(n), args...) == b, "XN1")
	sym.Assert(t.X(ctx, id, args...) == x, "X")
	a, b, x = ts.XN64("", id, id2, n, args...), ts.XN64("", id, "", n, args...), ts.X("", id, args...)
	sym.Assert(t.N64(id, id2, n, args...) == a && ts.N64(id, id2, n, args...) == a && t.N(id, id2, int(n), args...) == a && ts.N(id, id2, int(n), args...) == a, "N")
	sym.Assert(t.N1_64(id, n, args...) == b && ts.N1_64(id, n, args...) == b && t.N1(id, int(n), args...) == b && ts.N1(id, int(n), args...) == b, "N1")
	sym.Assert(t.T(id, args...) == x && ts.T(id, args...) == x, "T")
}

// H_C07_size: lengths and numbers of arguments the code mentions.
func H_C07_size() {
	if sym.Choose(2) == 0 {
		k := sym.Size("", 1, 5000)
		long := sized(k, "u")
		c07forms([]string{"", long}[sym.Choose(2)], long, "p"+long, nil)
		return
	}
	k := sym.Size("", 1, 40)
	var args []any
	for i := 0; i < k; i++ {
		args = append(args, i)
	}
	c07forms("c", []string{"p", "u%d", sized(1, "") + strings.Repeat("%d,", k)}[sym.Choose(3)], "ps", args)
}
