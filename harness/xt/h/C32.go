package h

import (
	"strings"
	"text/template/parse"

	"github.com/youthlin/t/cmd/xtemplate/internal"
	"github.com/youthlin/t/zzverif/sym"
)

// c32accepts tells whether the template language accepts a text, whatever
// functions it calls.
func c32accepts(text, left, right string) (bool, map[string]*parse.Tree) {
	tr := parse.New("t")
	tr.Mode = parse.SkipFuncCheck
	set := map[string]*parse.Tree{}
	_, err := tr.Parse(text, left, right, set)
	return err == nil, set
}

// c32check runs the extractor on one text and compares.
func c32check(text, left, right string) {
	sym.WriteFile("in/a.tmpl", text)
	sym.Redirect(2, "err.txt")
	err := internal.Run(&internal.Param{Input: sym.Path("in/*.tmpl"), Left: left, Right: right, Keyword: "T;N:1,2", OutputFile: sym.Path("out.pot")})
	ok, set := c32accepts(text, left, right)
	tag := ""
	if set[""] != nil {
		tag = "[template of the empty name] "
	}
	sym.ObserveBool("accepted", ok)
	if ok {
		sym.Assert(err == nil, tag+"a valid template is refused")
		if err != nil {
			return
		}
		out, _ := sym.ReadFile("out.pot")
		sym.Assert(strings.HasPrefix(out, "# SOME DESCRIPTIVE TITLE."), "no template written")
	} else {
		sym.Assert(err != nil, "an invalid template is accepted")
		out, _ := sym.ReadFile("out.pot")
		sym.Assert(out == "", "a template is written although the run fails")
	}
}

// H_C32_chars: every text of up to 2 (thorough 3) characters of the template
// language inside an action, with and without text around it.
func H_C32_chars() {
	n := sym.Choose(3 + b2int(sym.Thorough()))
	x := sym.FixStr(sym.StringIn(n, " .$|()\"'`aT1,=:-/*{}\n"))
	c32check([]string{"{{" + x + "}}", "a{{T \"b\"" + x + "}}"}[sym.Choose(2)], "{{", "}}")
}

// H_C32_bytes: arbitrary bytes in every kind of place.
func H_C32_bytes() {
	x := sym.String(1)
	s := []string{"{{T \"a" + x + "\"}}", "{{" + x + "}}", x + "{{T \"a\"}}" + x, "{{T `" + x + "`}}", "{{T '" + x + "'}}", "{{" + "a" + x + "b \"c\"}}", "{{/*" + x + "*/}}", "{{-" + x + "T \"a\"}}", "{{T 1" + x + "}}", "{{$a" + x + "= 1}}"}[sym.Choose(10)]
	c32check(sym.FixStr(s), "{{", "}}")
}

var c32tokens = []string{"end", "if .a", "else", "range .a", "with .a", "define \"x\"", "T \"a\"", "template \"x\"", "block \"y\" .", "break", "else if .b", "else with .b", "$x := 1", "$x", "$x = 2", "continue", "range $i, $e := .a", "template \"x\" T \"b\"", "nil", "if", "range", "/* c */", "- T \"a\" -", "range $x := .", "$ = 1", "if break", "end x", "else x", "define x", "T | nope", "1 | T", "nope.a.b (T \"c\").d", "and or not len index", "true", "\"a\" | printf \"%d\" | T"}

// H_C32_actions: every sequence of two (and of three of the commoner) actions.
func H_C32_actions() {
	n := 1 + sym.Choose(3)
	k := []int{len(c32tokens), len(c32tokens), 9 + 9*b2int(sym.Thorough())}[n-1]
	s := ""
	for i := 0; i < n; i++ {
		s += "{{" + c32tokens[sym.Choose(k)] + "}}"
	}
	c32check(s+[]string{"", "{{end}}", "x{{end}}{{end}}"}[sym.Choose(1+2*b2int(n < 3 || sym.Thorough()))], "{{", "}}")
}

// H_C32_names: functions of any name, also one that the language knows.
func H_C32_names() {
	names := []string{"and", "html", "println", "eq", "slice", "call", "T", "N", "_", "_a", "été", "日本", "nope9", "Iffy", "ends", "breaks", "rangeof", "iff", "nilly", "truely", "a_b", "x٣", "define1", "block_", "templates", "elsewhere", "withal", "continued"}
	nm := names[sym.Choose(len(names))]
	d := digit('0')
	c32check([]string{"{{" + nm + "}}", "{{" + nm + " \"" + d + "\"}}", "{{T \"a\" | " + nm + "}}", "{{if " + nm + d + " .a}}{{end}}", "{{(" + nm + ").b}}", "{{" + nm + ".b}}", "{{call " + nm + "}}"}[sym.Choose(7)], "{{", "}}")
}

// H_C32_words: functions named like anything written in the extractor's code.
func H_C32_words() {
	nm := sym.Word("", "ident", 30)
	c32check([]string{"{{" + nm + "}}", "{{" + nm + " \"a\"}}", "{{T \"a\" | " + nm + " | nope}}", "{{if " + nm + " .a}}{{end}}", "{{x." + nm + "}}", "{{T (" + nm + " 1) | " + nm + "z}}"}[sym.Choose(6)], "{{", "}}")
}

// H_C32_goWords: functions named like what Go itself knows.
func H_C32_goWords() {
	names := []string{"case", "chan", "const", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "import", "interface", "map", "package", "return", "select", "struct", "switch", "type", "var", "any", "append", "bool", "byte", "cap", "close", "copy", "delete", "error", "false", "float64", "int", "iota", "make", "max", "min", "new", "panic", "recover", "rune", "string", "uint", "init", "main", "js", "urlquery", "printf", "not", "or", "in", "this", "super", "null", "undefined", "include", "extends", "while", "do", "and", "is"}
	nm := names[sym.Choose(len(names))]
	c32check([]string{"{{" + nm + " \"a\"}}", "{{T \"a\" | " + nm + "}}", "{{if (" + nm + " .a)}}{{end}}"}[sym.Choose(3)], "{{", "}}")
}

// H_C32_fragments: every sequence of up to three (thorough four) pieces of a
// text, inside actions or not.
func H_C32_fragments() {
	pieces := []string{"{{", "}}", "\"", "`", "T \"a\"", " ", "fn", "-", "/*", "*/", "\n", "{", "|"}
	n := 1 + sym.Choose(3+b2int(sym.Thorough()))
	s := ""
	for i := 0; i < n; i++ {
		s += pieces[sym.Choose(len(pieces))]
	}
	if n == 3 && !sym.Thorough() {
		c32check(s, "{{", "}}")
		return
	}
	c32check([]string{s, "{{T \"" + s + "\" | fn}}", "{{/*" + s + "*/}}{{fn2}}"}[sym.Choose(3)], "{{", "}}")
}

// H_C32_literals: literals that look like the end or the start of an action,
// before functions never heard of.
func H_C32_literals() {
	ds := [][2]string{{"{{", "}}"}, {"<<", ">>"}, {"[[", "]]"}, {"{", "}"}, {"<%", "%>"}}
	d := ds[sym.Choose(len(ds))]
	lit := []string{d[0], d[1], d[1] + d[0], "*/", "/*", "\\\"", "//", "end", d[0] + "end" + d[1]}[sym.Choose(9)]
	q := []string{"\"", "`"}[sym.Choose(2)]
	a := []string{"T Q | first", "T Q (second 1) | third", "if eq Q (fourth)", "/*Q*/", "$x := fifth Q", "printf Q | T | sixth", "'{'|eighth|T"}[sym.Choose(7)]
	s := d[0] + strings.ReplaceAll(a, "Q", q+lit+q) + d[1]
	c32check(s+d[0]+"seventh"+d[1]+[]string{"", d[0] + "end" + d[1]}[sym.Choose(2)], d[0], d[1])
}

// H_C32_delims: other delimiters.
func H_C32_delims() {
	ds := [][2]string{{"<<", ">>"}, {"[[", "]]"}, {"<%=", "%>"}, {"${", "}"}, {"((", "))"}, {"", ""}, {"{{", "}}"}, {"(", ")"}, {"\"", "\""}, {"{{-", "}}"}, {"a", "b"}, {"{{", "-}}"}}
	d := ds[sym.Choose(len(ds))]
	l, r := d[0], d[1]
	if l == "" {
		l, r = "{{", "}}"
	}
	x := sym.FixStr(sym.StringIn(1, " -x\"()"))
	c32check([]string{"{{T}}" + l + x + "T \"a\"" + x + r, l + "if .a" + r + x + l + "end" + r, l + "/*" + x + "*/" + r, l + "T \"a" + r + x, x + r + l}[sym.Choose(5)], d[0], d[1])
}

// H_C32_twice: templates defined more than once, in one file and in several.
func H_C32_twice() {
	bodies := []string{"", " \n", "{{/* c */}}", "x", "{{T \"a\"}}", "{{define \"b\"}}{{end}}"}
	def := []string{"define \"x\"", "block \"x\" .", "define \"\"", "define \"y\""}
	s := ""
	for i := 0; i < 2; i++ {
		s += "{{" + def[sym.Choose(len(def))] + "}}" + bodies[sym.Choose(len(bodies))] + "{{end}}"
	}
	c32check(s+[]string{"", "x", "{{template \"x\"}}"}[sym.Choose(3)], "{{", "}}")
}

// H_C32_files: one bad file among several makes the run fail, wherever it is.
func H_C32_files() {
	texts := []string{"{{T \"a\"}}", "{{T \"a}}", "", "text", "{{end}}", "{{define \"x\"}}b{{end}}"}
	n := 2 + b2int(sym.Thorough())
	all := true
	for i := 0; i < n; i++ {
		s := texts[sym.Choose(len(texts))]
		ok, _ := c32accepts(s, "{{", "}}")
		all = all && ok
		sym.WriteFile("in/"+string([]byte{'a' + byte(i)})+".tmpl", s)
	}
	sym.Redirect(2, "err.txt")
	err := internal.Run(&internal.Param{Input: sym.Path("in/*.tmpl"), Left: "{{", Right: "}}", Keyword: "T", OutputFile: sym.Path("out.pot")})
	sym.Assert((err == nil) == all, "the run succeeds although a file is bad, or fails although none is")
}

// H_C32_blanks: blanks and line ends between any two tokens, and in literals and
// comments, before functions never heard of.
func H_C32_blanks() {
	ws := []string{" ", "\n", "\n\n", "\t", "\r\n", " \n \n ", "", "\f", "\v", "\u00a0", "\u2028"}
	w := ws[sym.Choose(len(ws))]
	s := []string{
		"{{" + w + "nope 1}}{{T \"a\"}}",
		"{{nope" + w + "1" + w + "}}{{T \"a\"}}",
		"{{(" + w + "nope" + w + "1)" + w + "|" + w + "nada" + w + "2}}",
		"{{if" + w + "nope" + w + "}}x{{else" + w + "if" + w + "nada}}{{end" + w + "}}",
		"{{T `a" + w + "{{b" + w + "`}}{{nope}}",
		"{{/* a" + w + "{{b" + w + "*/}}{{nope}}",
		"{{-" + w + "nope -}}" + w + "{{- nada" + w + "-}}",
		"{{range" + w + "$x" + w + "," + w + "$y" + w + ":=" + w + "nope" + w + "}}{{$x}}{{end}}",
		"{{nope" + w + "." + w + "a}}",
		"x{{" + w + "\n}}",
	}[sym.Choose(10)]
	c32check(s, "{{", "}}")
}

// H_C32_between: functions before, between and after comments and literals that look
// like the beginning or the end of something.
func H_C32_between() {
	odd := []string{"{{/* c */}}", "{{- /* {{ */ -}}", "{{T \"/*\"}}", "{{T \"*/\"}}", "{{T `{{`}}", "/* ", " */", "{{T \"`\"}}", "{{T \"}}\"}}", "{{'\"'}}", "{{\"'\"}}", "{{T \"\\\\\"}}", "//", "{{T `\n`}}", "{{if T \"(\"}}{{end}}"}
	a, b := odd[sym.Choose(len(odd))], odd[sym.Choose(len(odd))]
	c := ""
	if sym.Thorough() {
		c = odd[sym.Choose(len(odd))]
	}
	c32check([]string{"", "{{nope}}"}[sym.Choose(2)]+a+"{{nada 1}}"+b+"x{{.y | rien}}"+c, "{{", "}}")
}
