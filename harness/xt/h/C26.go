package h

import (
	"github.com/youthlin/t/zzverif/sym"
)

// keyword shapes: positions of context, id and plural id (0: none).
type shape struct {
	name, spec   string
	ctx, id, id2 int
}

var shapes = []shape{
	{"T", "T", 0, 1, 0},
	{"N", "N:1,2", 0, 1, 2},
	{"X", "X:1c,2", 1, 2, 0},
	{"XN", "XN:1c,2,3", 1, 2, 3},
	{"N1", "N1:1,1", 0, 1, 1},
	{"Second", "Second:2", 0, 2, 0},
	{"Far", "Far:1,3", 0, 1, 3},
	{"Back", "Back:2c,1", 2, 1, 0},
	{"Rev", "Rev:3c,2,1", 3, 2, 1},
}

func specOf() string {
	s := ""
	for i, k := range shapes {
		if i > 0 {
			s += ";"
		}
		s += k.spec
	}
	return s
}

func (k shape) last() int {
	n := k.id
	if k.ctx > n {
		n = k.ctx
	}
	if k.id2 > n {
		n = k.id2
	}
	return n
}

func (k shape) needs(i int) bool { return i == k.ctx || i == k.id || i == k.id2 }

func (k shape) item(vals []string) item {
	it := item{id: vals[k.id-1]}
	if k.ctx > 0 {
		it.ctx = vals[k.ctx-1]
	}
	if k.id2 > 0 {
		it.id2, it.plural = vals[k.id2-1], true
	}
	return it
}

// lits gives literals for every position, told apart by their first letter.
func (k shape) lits(extra int) (toks, vals []string) {
	for i := 1; i <= k.last()+extra; i++ {
		v := string([]byte{'0' + byte(i)}) + digit('0')
		vals = append(vals, v)
		toks = append(toks, "\""+v+"\"")
	}
	return
}

func join(toks []string) string {
	s := ""
	for _, t := range toks {
		s += " " + t
	}
	return s
}

const nHeads = 22

// head is the way a keyword is called.
func head(k int, name string) string {
	switch k {
	case 0:
		return name
	case 1:
		return "." + name
	case 2:
		return ".t." + name
	case 3:
		return "$." + name
	case 4:
		return "$v." + name
	case 5:
		return "(.Get 1)." + name
	case 6:
		return "call " + name
	case 7:
		return "call .t." + name
	case 8:
		return "(.Get 1).a." + name
	case 9:
		return "$.a.b." + name
	case 10:
		return "$v.a." + name
	case 11:
		return "call (.Get 1).a." + name
	case 12:
		return "((.Get 1).a)." + name
	case 13:
		return "call $v." + name
	case 14:
		return "(index .list 0)." + name
	case 15:
		return "((.Get 1) | .With 2)." + name
	case 16:
		return "call (.Get 1)." + name
	case 17:
		return "$v.a.b.c." + name
	case 18:
		return "$.a.b.c.d." + name
	case 19:
		return ".a.b.c.d.e." + name
	case 20:
		return "(.Get 1).a.b.c." + name
	}
	return "$." + name
}

// H_C26_forms: every keyword shape called in every way.
func H_C26_forms() {
	k := shapes[sym.Choose(len(shapes))]
	extra := 1
	if sym.Thorough() {
		extra = sym.Choose(2)
	}
	toks, vals := k.lits(extra)
	switch at := sym.Choose(4); at {
	case 0:
	case 1: // raw literal
		toks[k.id-1] = "`" + vals[k.id-1] + "`"
	case 2: // in parentheses
		n := len(toks)
		toks[0] = "(" + toks[0] + ")"
		toks[n-1] = "((" + toks[n-1] + "))"
	case 3:
		toks[k.id-1] = "( (( " + toks[k.id-1] + " ) ))"
	}
	h := head(sym.Choose(nHeads), k.name)
	call := h + join(toks)
	if sym.Choose(2) == 1 { // the last argument through a pipe
		n := len(toks) - 1
		call = toks[n] + " | " + h + join(toks[:n])
	}
	_, got := extract(specOf(), "{{", "}}", "a{{$v := .}}b{{"+call+"}}c\n")
	sameItems(got, []item{k.item(vals)})
}

const nPlaces = 36

// place puts a call somewhere in a template; piped says whether the call may be
// a whole pipeline there.
func place(n int, e string) string {
	switch n {
	case 0:
		return "{{" + e + "}}"
	case 1:
		return "x {{- " + e + " -}} y"
	case 2:
		return "{{if " + e + "}}a{{end}}"
	case 3:
		return "{{if .a}}{{" + e + "}}{{end}}"
	case 4:
		return "{{if .a}}a{{else}}b{{" + e + "}}{{end}}"
	case 5:
		return "{{if .a}}a{{else if " + e + "}}b{{end}}"
	case 6:
		return "{{if .a}}a{{else if .b}}b{{else}}{{" + e + "}}{{end}}"
	case 7:
		return "{{range " + e + "}}a{{end}}"
	case 8:
		return "{{range .a}}{{if .}}{{break}}{{end}}" + []string{"", "{{break}}", "{{continue}}b", "b{{break}}\n{{continue}}"}[sym.Choose(4)] + "{{" + e + "}}{{continue}}{{end}}"
	case 9:
		return "{{range $i, $e := .a}}a{{else}}{{" + e + "}}{{end}}"
	case 10:
		return "{{with " + e + "}}a{{end}}"
	case 11:
		return "{{with .a}}{{" + e + "}}{{end}}"
	case 12:
		return "{{with $x := .a}}a{{else}}{{" + e + "}}{{end}}"
	case 13:
		return "{{with .a}}a{{else with " + e + "}}b{{end}}"
	case 14:
		return "{{template \"t\" " + e + "}}"
	case 15:
		return "{{define \"d\"}}{{" + e + "}}{{end}}"
	case 16:
		return "{{block \"b\" .}}{{" + e + "}}{{end}}"
	case 17:
		return "{{block \"b\" " + e + "}}a{{end}}"
	case 18:
		return "{{$w := " + e + "}}"
	case 19:
		return "{{$w := 1}}{{$w = " + e + "}}"
	case 20:
		return "{{" + e + " | printf \"%s\"}}"
	case 21:
		return "{{printf \"%s\" (" + e + ")}}"
	case 22:
		return "{{printf \"%s\" .a (index (" + e + ") 1) | html}}"
	case 23:
		return "{{(" + e + ").Field}}"
	case 24:
		return "{{if and .a (not (" + e + "))}}a{{end}}"
	case 25:
		return "{{range $i, $e := " + e + "}}a{{end}}"
	case 26:
		return "{{with $x := " + e + "}}a{{end}}"
	case 27:
		return "{{(" + e + ") .x}}"
	case 28:
		return "{{(" + e + ") .x \"y\" | printf \"%s\"}}"
	case 29:
		return "{{call (" + e + ") .x 1}}"
	case 30:
		return "{{(" + e + ").Method .x 1}}"
	case 31:
		return "{{((" + e + ")) (.Get 1) .y}}"
	case 32:
		return "{{.x | (" + e + ").Method 1}}"
	case 33:
		return "{{printf \"%s%s%s%s\" 1 .a nil (" + e + ")}}"
	case 34:
		return "{{.x | print 1 | print (" + e + ") | print 2}}"
	}
	return "{{.a.b ((" + e + ").Field).Method}}"
}

// callOf is a call of a keyword with literal arguments.
func callOf(tag string) (string, item) {
	x := tag + digit('0')
	switch sym.Choose(4) {
	case 0:
		return "T \"" + x + "\"", item{id: x}
	case 1:
		return ".t.X \"c\" \"" + x + "\" .n", item{ctx: "c", id: x}
	case 2:
		return "\"" + x + "\" | T", item{id: x}
	}
	return "$.XN \"c\" `" + x + "` \"p\" 3", item{ctx: "c", id: x, id2: "p", plural: true}
}

// H_C26_names: functions and keywords of any name.
func H_C26_names() {
	names := []string{"übersetze", "翻译", "T1", "_", "_t", "tü", "é2", "Ω", "т", "T_x٣", "A", "range_", "endx", "iff", "nil_", "html2"}
	n := names[sym.Choose(len(names))]
	other := names[sym.Choose(len(names))]
	x := digit('0')
	key := "kw"
	if sym.Choose(2) == 1 {
		key = n
	}
	var want []item
	s := "{{" + other + " .x 1}}{{" + n + " \"a" + x + "\"}}{{if " + other + "}}{{." + n + " \"b" + x + "\"}}{{end}}{{kw \"c" + x + "\"}}"
	if key == n {
		want = append(want, item{id: "a" + x}, item{id: "b" + x})
	} else {
		want = append(want, item{id: "c" + x})
	}
	_, got := extract(key, "{{", "}}", s)
	sameItems(got, want)
}

// H_C26_places: a call in every place of a template.
func H_C26_places() {
	e, it := callOf("a")
	_, got := extract(specOf(), "{{", "}}", place(sym.Choose(nPlaces), e))
	sameItems(got, []item{it})
}

// action: whether a place takes a text with actions of its own inside its body.
func nest(n int, name, body string) string {
	switch n {
	case 0:
		return "{{if .a}}" + body + "{{end}}"
	case 1:
		return "{{if .a}}{{else if .b}}{{else}}" + body + "{{end}}"
	case 2:
		return "{{range .a}}" + body + "{{else}}{{end}}"
	case 3:
		return "{{range .a}}{{else}}" + body + "{{end}}"
	case 4:
		return "{{with .a}}" + body + "{{end}}"
	case 5:
		return "{{with .a}}{{else}}" + body + "{{end}}"
	case 6:
		return "{{block \"" + name + "\" .}}" + body + "{{end}}"
	}
	return "x" + body + "y"
}

// H_C26_nested: places inside places, with a second call after them.
func H_C26_nested() {
	x := "a" + digit('0')
	e, it := "T \""+x+"\"", item{id: x}
	if sym.Thorough() {
		e, it = callOf("a")
	}
	p := sym.Choose(nPlaces)
	if p == 15 { // a definition cannot stand inside another action
		return
	}
	s := nest(sym.Choose(7), "n1", place(p, e))
	if sym.Thorough() {
		s = nest(sym.Choose(8), "n2", s)
	}
	_, got := extract(specOf(), "{{", "}}", s+"{{T \"last\"}}")
	sameItems(got, []item{it, {id: "last"}})
}

// H_C26_args: arguments that are not literals, too few and surplus arguments.
func H_C26_args() {
	k := shapes[sym.Choose(len(shapes))]
	toks, vals := k.lits(1)
	ok := true
	switch sym.Choose(3) {
	case 0:
		at := sym.Choose(len(toks))
		non := []string{".a", "3", "$", "true", "(printf \"x\" 1)", "(.a \"b\")", "'c'", "nil", ".a.b", "(upper `x`)", "len", "-1.5", "(\"x\" | upper)"}
		toks[at] = non[sym.Choose(len(non))]
		ok = !k.needs(at + 1)
	case 1:
		n := sym.Choose(len(toks) + 1)
		toks = toks[:n]
		ok = n >= k.last()
	case 2:
		at := sym.Choose(len(toks) + 1)
		toks = append(append(append([]string{}, toks[:at]...), ".z"), toks[at:]...)
		vals = append(append(append([]string{}, vals[:at]...), ""), vals[at:]...)
		ok = !k.needs(at + 1)
	}
	h := head(sym.Choose(3), k.name)
	_, got := extract(specOf(), "{{", "}}", "{{"+h+join(toks)+"}}")
	if ok {
		sameItems(got, []item{k.item(vals)})
	} else {
		sameItems(got, nil)
	}
}

// H_C26_nothing: what is no call of a keyword with literals gives nothing.
func H_C26_nothing() {
	x := digit('0') + letters(1)
	texts := []string{
		"T \"" + x + "\"",
		"{T \"" + x + "\"}",
		"{{/* T \"" + x + "\" */}}",
		"{{- /* {{T \"" + x + "\"}} */ -}}",
		"{{upper \"" + x + "\"}}",
		"{{.upper \"" + x + "\"}}",
		"{{TT \"" + x + "\"}}",
		"{{.T.upper \"" + x + "\"}}",
		"{{$.T.upper \"" + x + "\"}}",
		"{{(.Get 1).T.upper \"" + x + "\"}}",
		"{{(.T).upper \"" + x + "\"}}",
		"{{$v := 1}}{{$v.T.upper \"" + x + "\"}}",
		"{{(.Get 1).T}}\"" + x + "\"",
		"{{call .T.upper \"" + x + "\"}}",
		"{{$x := 1}}{{$x}}",
		"{{\"T\"}}{{\"" + x + "\"}}",
		"{{printf \"T %s\" \"" + x + "\"}}",
		"{{printf T \"" + x + "\"}}",
		"{{printf .T \"" + x + "\"}}",
		"{{printf \"%s\" $.T \"" + x + "\"}}",
		"{{T}}{{.T}}",
		"{{\"" + x + "\" | upper | T}}",
		"{{\"" + x + "\" | printf \"%s\" | .T}}",
		"{{T .a | printf \"" + x + "\"}}",
		"{{template \"T\" \"" + x + "\"}}",
		"{{define \"T\"}}" + x + "{{end}}",
		"{{`{{T \"" + x + "\"}}`}}",
		"{{t \"" + x + "\"}}{{x \"c\" \"" + x + "\"}}",
		"{{.T}} \"" + x + "\"",
		"{{if .T}}\"" + x + "\"{{end}}",
		"{{call upper \"" + x + "\"}}",
		"{{upper T \"" + x + "\"}}",
		"{{X \"" + x + "\"}}",
		"{{\"" + x + "\" | X}}",
		"",
	}
	_, got := extract(specOf(), "{{", "}}", texts[sym.Choose(len(texts))])
	sameItems(got, nil)
}

// H_C26_content: what literals contain, quoted and raw.
func H_C26_content() {
	n := 1
	if sym.Thorough() {
		n = 2
	}
	s := sym.String(n)
	lit, val := "", ""
	switch sym.Choose(3) {
	case 0: // quoted, plain bytes
		for i := 0; i < n; i++ {
			sym.Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
		}
		lit, val = "\"k"+s+"\"", "k"+s
	case 1: // raw
		for i := 0; i < n; i++ {
			sym.Assume(s[i] < 0x80 && s[i] != '`' && s[i] != 0 && s[i] != '\r')
		}
		lit, val = "`k"+s+"`", "k"+s
	case 2:
		e := [][2]string{{`\n`, "\n"}, {`\"`, "\""}, {`\\`, "\\"}, {`\t`, "\t"}, {`\u00e9`, "é"}, {`\x41`, "A"}, {`é`, "é"}, {`\\n`, "\\n"}, {`{{T 1}}`, "{{T 1}}"}, {`}}`, "}}"}, {`/*`, "/*"}, {`%d`, "%d"}, {` `, " "}}[sym.Choose(13)]
		x := digit('0')
		lit, val = "\""+e[0]+x+"\"", e[1]+x
	}
	e := "T " + lit
	if sym.Choose(2) == 1 {
		e = lit + " | .T"
	}
	_, got := extract(specOf(), "{{", "}}", "{{"+e+"}}")
	sameItems(got, []item{{id: val}})
}

// H_C26_delims: other delimiters.
func H_C26_delims() {
	d := [][2]string{{"[[", "]]"}, {"<%", "%>"}, {"{{{", "}}}"}, {"<<", ">>"}, {"", ""}}[sym.Choose(5)]
	l, r := d[0], d[1]
	x := digit('0')
	if l == "" {
		l, r = "{{", "}}"
	}
	s := l + "T \"a" + x + "\"" + r + " {{T \"b\"}} " + l + "/* T \"c\" */" + r + l + "- if .x -" + r + l + ".X \"c\" \"d" + x + "\"" + r + l + "end" + r
	want := []item{{id: "a" + x}, {ctx: "c", id: "d" + x}}
	if l == "{{" {
		want = append(want, item{id: "b"})
	}
	if l == "{{{" {
		s = l + "T \"a" + x + "\"" + r + l + ".X \"c\" \"d" + x + "\"" + r
	}
	_, got := extract(specOf(), d[0], d[1], s)
	sameItems(got, want)
}

// H_C26_two: several calls in one pipeline.
func H_C26_two() {
	a, b := "a"+digit('0'), "b"+digit('0')
	forms := []string{
		"{{or (T A) (T B)}}",
		"{{T A | X B}}",
		"{{T A}}{{T B}}",
		"{{T A | printf (T B)}}",
		"{{X C (T A) | T}}{{T B}}",
		"{{printf (T A) (.T B)}}",
		"{{if T A}}{{T B}}{{end}}",
		"{{T A | print | printf (T B)}}",
		"{{(T A).X (T B)}}",
		"{{range T A}}{{else}}{{T B}}{{end}}",
		"{{define \"x\"}}{{T A}}{{end}}{{define \"y\"}}{{T B}}{{end}}",
		"{{template \"x\" T A}}{{define \"x\"}}{{T B}}{{end}}",
	}
	n := sym.Choose(len(forms))
	s := ""
	for i := 0; i < len(forms[n]); i++ {
		switch c := forms[n][i]; c {
		case 'A':
			s += "\"" + a + "\""
		case 'B':
			s += "\"" + b + "\""
		case 'C':
			s += "\"c\""
		default:
			s += string([]byte{c})
		}
	}
	want := []item{{id: a}, {id: b}}
	if n == 1 {
		want = want[:1]
	}
	_, got := extract(specOf(), "{{", "}}", s)
	sameItems(got, want)
}

// H_C26_twice: a keyword declared more than once, and several keywords.
func H_C26_twice() {
	specs := []string{"T:1;T:2", "T:2;T:1", "T:2,1;T:3", "U;T:1;T:2", "T:1;U:2;T:3c,1", "T:3;T:1", "T:1c,2;T:1;T:2"}
	decl := [][][3]int{{{0, 1}, {0, 2}}, {{0, 2}, {0, 1}}, {{0, 2, 1}, {0, 3}}, {{0, 1}, {0, 2}}, {{0, 1}, {3, 1}}, {{0, 3}, {0, 1}}, {{1, 2}, {0, 1}, {0, 2}}}
	k := sym.Choose(len(specs))
	vals := []string{"", "1" + digit('0'), "2" + digit('0'), "3" + digit('0')}
	n := 1 + sym.Choose(3)
	hole := sym.Choose(n + 1) // 0: none
	call := head(sym.Choose(3), "T")
	for i := 1; i <= n; i++ {
		if i == hole {
			call += " .x"
		} else {
			call += " \"" + vals[i] + "\""
		}
	}
	var want []item
	for _, d := range decl[k] {
		ok := true
		for _, p := range d {
			if p > n || p > 0 && p == hole {
				ok = false
			}
		}
		if !ok {
			continue
		}
		it := item{ctx: vals[d[0]], id: vals[d[1]], id2: vals[d[2]], plural: d[2] > 0}
		want = append(want, it)
	}
	_, got := extract(specs[k], "{{", "}}", "{{"+call+"}}")
	sameItems(got, want)
}

// H_C26_deep: calls at the bottom of deep nesting, and templates with many calls.
func H_C26_deep() {
	x := digit('0')
	if sym.Choose(2) == 0 {
		d := []int{3, 6, 12}[sym.Choose(3)]
		mixed := sym.Choose(8) // 7: every kind in turn
		s, want := "{{T \"bottom"+x+"\"}}", []item{{id: "bottom" + x}}
		for i := 0; i < d; i++ {
			k := mixed
			if mixed == 7 {
				k = i % 7
			}
			name := "n" + string([]byte{'a' + byte(i)})
			s = nest(k, name, s+"{{X \"c\" \""+name+"\"}}")
			want = append(want, item{ctx: "c", id: name})
		}
		_, got := extract(specOf(), "{{", "}}", s)
		sameItems(got, want)
		return
	}
	// parentheses, pipelines and arguments of arguments
	d := []int{2, 5, 9}[sym.Choose(3)]
	e, want := "T \"in"+x+"\"", []item{{id: "in" + x}}
	kind := sym.Choose(5)
	for i := 0; i < d; i++ {
		name := "k" + string([]byte{'a' + byte(i)})
		switch kind {
		case 0:
			e = "((" + e + "))"
		case 1:
			e = "printf \"%s%s\" .a (" + e + ")"
		case 2:
			e = "T \"" + name + "\" (" + e + ")"
			want = append(want, item{id: name})
		case 3:
			e = "(" + e + ").Field.Method .x"
		case 4:
			e = "\"" + name + "\" | T | printf \"%s%s\" (" + e + ")"
			want = append(want, item{id: name})
		}
	}
	_, got := extract(specOf(), "{{", "}}", "{{if "+e+"}}{{end}}")
	sameItems(got, want)
}

// H_C26_words: names and texts of the code as keywords and as literals.
func H_C26_words() {
	x := digit('0')
	switch sym.Choose(3) {
	case 0: // a keyword of that name; other names stay other names
		w := sym.Word("", "ident", 80)
		switch w {
		case "if", "else", "end", "range", "with", "define", "block", "template", "break", "continue", "nil", "true", "false":
			return
		}
		_, got := extract(w+":2c,1", "{{", "}}", "{{."+w+" \"a"+x+"\" \"c\"}}{{"+w+"z \"b\" \"d\"}}{{z"+w+" \"b\" \"d\"}}{{$."+w+".z \"b\" \"d\"}}")
		sameItems(got, []item{{ctx: "c", id: "a" + x}})
	case 1: // another function of that name
		w := sym.Word("", "ident", 80)
		switch w {
		case "if", "else", "end", "range", "with", "define", "block", "template", "break", "continue", "nil", "true", "false", "T":
			return
		}
		_, got := extract("T", "{{", "}}", "{{."+w+" \"b\"}}{{(."+w+" \"b\").T \"a"+x+"\"}}{{"+w+" (T \"c\")}}{{T ."+w+"}}")
		sameItems(got, []item{{id: "a" + x}, {id: "c"}})
	case 2: // a literal
		w := sym.Word("", "any", 80)
		for i := 0; i < len(w); i++ {
			if w[i] < ' ' || w[i] >= 0x7f || w[i] == '`' {
				return
			}
		}
		_, got := extract("T;X:1c,2", "{{", "}}", "{{T `"+w+x+"`}}{{`k"+w+"` | X `c"+w+"`}}")
		sameItems(got, []item{{id: w + x}, {ctx: "c" + w, id: "k" + w}})
	}
}

// H_C26_size: literals, arguments, pipelines, positions and bodies of the
// sizes the code mentions.
func H_C26_size() {
	x := digit('0')
	rep := func(n int, s string) string {
		r := ""
		for i := 0; i < n; i++ {
			r += s
		}
		return r
	}
	var s string
	want := []item{{id: "a" + x}}
	switch sym.Choose(7) {
	case 0: // the literal
		k := sym.Size("", 1, 3000)
		want[0].id = x + rep(k-1, "a")
		s = "{{T \"" + want[0].id + "\"}}"
	case 1: // arguments after the literal
		k := sym.Size("", 0, 300)
		s = "{{T \"a" + x + "\"" + rep(k, " .x") + "}}"
	case 2: // stages of the pipeline
		k := sym.Size("", 0, 100)
		s = "{{T \"a" + x + "\"" + rep(k, " | print") + "}}{{" + rep(k, "print | ") + "print (T \"b\")}}"
		want = append(want, item{id: "b"})
	case 3: // nested calls
		k := sym.Size("", 0, 60)
		s = "{{" + rep(k, "print .y (") + "T \"a" + x + "\"" + rep(k, ")") + "}}"
	case 4: // nested actions
		k := sym.Size("", 0, 60)
		s = rep(k, "{{if .a}}") + "{{T \"a" + x + "\"}}" + rep(k, "{{end}}")
	case 5: // text and actions before it
		k := sym.Size("", 0, 300)
		s = rep(k, "t{{.x}}") + "{{T \"a" + x + "\"}}"
	case 6: // fields before the name
		k := sym.Size("", 0, 60)
		s = "{{" + rep(k, ".f") + ".T \"a" + x + "\"}}"
	}
	_, got := extract("T", "{{", "}}", s)
	sameItems(got, want)
}

// H_C26_far: arguments at the positions the code mentions.
func H_C26_far() {
	k := sym.Size("", 3, 200)
	x := digit('0')
	s := "{{F"
	for i := 1; i <= k; i++ {
		switch i {
		case k:
			s += " \"a" + x + "\""
		case k - 1:
			s += " \"c\""
		default:
			s += " .x"
		}
	}
	_, got := extract("F:"+itoa(k-1)+"c,"+itoa(k), "{{", "}}", s+"}}")
	sameItems(got, []item{{ctx: "c", id: "a" + x}})
}
