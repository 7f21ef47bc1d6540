package h

import (
	"strings"
	"text/template/parse"
	"unicode"
	"unicode/utf8"

	"github.com/youthlin/t/cmd/xtemplate/internal"
	"github.com/youthlin/t/zzverif/sym"
)

const c33old = "what was there before"

// c33name tells whether templates can call a function of the name.
func c33name(s string) bool {
	for i, r := range s {
		if !(r == '_' || unicode.IsLetter(r) || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != "" && utf8.ValidString(s)
}

// c33run runs the extractor where there is an output already.
func c33run(p internal.Param) (out string, err error) {
	sym.WriteFile("out.pot", c33old)
	sym.Redirect(2, "err.txt")
	p.OutputFile = sym.Path("out.pot")
	if p.Input == "" {
		p.Input = sym.Path("in/*.tmpl")
	}
	err = internal.Run(&p)
	out, _ = sym.ReadFile("out.pot")
	return
}

func c33template(out string) bool {
	return strings.HasPrefix(out, "# SOME DESCRIPTIVE TITLE.")
}

const c33text = "{{T \"a\"}}{{N \"b\" \"c\"}}"

// c33result: a usable argument gives the template, an unusable one an error
// and leaves the output alone.
func c33result(out string, err error, usable bool) {
	if !usable {
		sym.Assert(err != nil, "an unusable argument is not reported")
		sym.Assert(out == c33old, "the output is touched although nothing can be extracted")
		return
	}
	sym.Assert(err == nil, "a usable argument is refused")
	sym.Assert(c33template(out), "no template")
	sym.Assert(strings.Contains(out, "\nmsgid \"a\"\n"), "a message is missing")
}

// H_C33_functions: any list of function names.
func H_C33_functions() {
	sym.WriteFile("in/a.tmpl", c33text)
	n := sym.Choose(4 + b2int(sym.Thorough()))
	f := sym.FixStr(sym.StringIn(n, " ,a_1-.\t\xc3\xa9{"))
	usable := true
	for _, name := range strings.Split(f, ",") {
		if name = strings.TrimSpace(name); name != "" && !c33name(name) {
			usable = false
		}
	}
	out, err := c33run(internal.Param{Left: "{{", Right: "}}", Keyword: "T", Function: f})
	c33result(out, err, usable)
}

// H_C33_bytes: a function name with an arbitrary byte.
func H_C33_bytes() {
	sym.WriteFile("in/a.tmpl", c33text)
	x := sym.FixStr(sym.String(1 + b2int(sym.Thorough())))
	if strings.Contains(x, ",") || x == "," || strings.TrimSpace(x) == "" {
		return
	}
	f := []string{x, "a" + x, x + "b", "a," + x}[sym.Choose(4)]
	usable := true
	for _, name := range strings.Split(f, ",") {
		if !c33name(strings.TrimSpace(name)) {
			usable = false
		}
	}
	out, err := c33run(internal.Param{Left: "{{", Right: "}}", Keyword: "T", Function: f})
	c33result(out, err, usable)
}

// H_C33_language: names that the template language uses itself.
func H_C33_language() {
	names := []string{"if", "end", "define", "len", "nil", "true", "_", "T", "N", "printf", "break", "range", "html", "call", "template", "été", "日本", "x٣", "٣x", "a\u0301", "\xff", "a\xff", "\ufffd", "\u200b"}
	nm := names[sym.Choose(len(names))]
	sym.WriteFile("in/a.tmpl", c33text)
	p := internal.Param{Left: "{{", Right: "}}", Keyword: "T", Function: nm}
	if sym.Choose(2) == 1 {
		p.Keyword, p.Function = "T;"+nm, ""
	}
	out, err := c33run(p)
	c33result(out, err, c33name(nm))
}

// H_C33_keywords: keywords whose names templates can or cannot call.
func H_C33_keywords() {
	sym.WriteFile("in/a.tmpl", c33text)
	name := sym.FixStr(sym.StringIn(1+sym.Choose(3), "a_1-. \xc3\xa9"))
	k := name + []string{"", ":1", ":1,2", ":1c,2"}[sym.Choose(4)]
	if sym.Choose(2) == 1 {
		k = "T;" + k
	} else {
		k += ";T"
	}
	out, err := c33run(internal.Param{Left: "{{", Right: "}}", Keyword: k})
	c33result(out, err, c33name(strings.TrimSpace(name)))
}

// H_C33_spec: keyword lists that say nothing.
func H_C33_spec() {
	sym.WriteFile("in/a.tmpl", c33text)
	ks := []string{"", ";", "T;", ":1", "T:", "T:x", "T:1,", "T:1,2,3", "T:1c", "T:1:2", "T:1c,2,3,4", "T:c,1", "T:99999999999999999999", "T:1,2c", "%", "T:%"}
	out, err := c33run(internal.Param{Left: "{{", Right: "}}", Keyword: ks[sym.Choose(len(ks))]})
	c33result(out, err, false)
}

// H_C33_pattern: file patterns, malformed ones included.
func H_C33_pattern() {
	sym.WriteFile("in/a.tmpl", c33text)
	n := sym.Choose(4 + b2int(sym.Thorough()))
	x := sym.FixStr(sym.StringIn(n, "a*?[]-^\\"))
	if x == "" { // the directory itself
		x = "a"
	}
	p := "in/" + x + []string{"", ".tmpl"}[sym.Choose(2)]
	out, err := c33run(internal.Param{Left: "{{", Right: "}}", Keyword: "T", Input: sym.Path(p)})
	if err == nil {
		sym.Assert(c33template(out), "no template")
		sym.Assert(strings.Contains(out, "\nmsgid \"a\"\n") == c33matches(p, "in/a.tmpl"), "the pattern's files are not the ones that were read")
	} else {
		sym.Assert(!c33template(out), "an error, and a template")
		sym.Assert(strings.Contains(p, "[") || strings.Contains(p, "\\"), "a well-formed pattern is refused")
	}
}

// c33matches matches patterns of *, ? and \ (and gives up on [ by asking for
// what is certain: a class of one character).
func c33matches(p, s string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if c33matches(p[1:], s[i:]) {
				return true
			}
			if i < len(s) && s[i] == '/' {
				break
			}
		}
		return false
	case '?':
		return s != "" && s[0] != '/' && c33matches(p[1:], s[1:])
	case '\\':
		return len(p) > 1 && s != "" && s[0] == p[1] && c33matches(p[2:], s[1:])
	case '[':
		neg := len(p) > 1 && p[1] == '^'
		end := strings.IndexByte(p, ']')
		if end < 0 || s == "" || s[0] == '/' {
			return false
		}
		set := p[1:end]
		if neg {
			set = p[2:end]
		}
		in := false
		for i := 0; i < len(set); i++ {
			lo, hi := set[i], set[i]
			if i+2 < len(set) && set[i+1] == '-' {
				hi = set[i+2]
				i += 2
			}
			in = in || lo <= s[0] && s[0] <= hi
		}
		return in != neg && c33matches(p[end+1:], s[1:])
	}
	return s != "" && s[0] == p[0] && c33matches(p[1:], s[1:])
}

// H_C33_delims: any delimiters.
func H_C33_delims() {
	l := sym.FixStr(sym.StringIn(sym.Choose(3), "{(a\"`-/ \n"))
	r := sym.FixStr(sym.StringIn(sym.Choose(3+b2int(sym.Thorough())), "}) *b\"\xc3"))
	text := "x{(T \"a\")} {{T \"a\"}}-aT `c`b " + l + "T \"a\" " + r
	sym.WriteFile("in/a.tmpl", text)
	out, err := c33run(internal.Param{Left: l, Right: r, Keyword: "T"})
	tr := parse.New("t")
	tr.Mode = parse.SkipFuncCheck
	_, perr := tr.Parse(text, l, r, map[string]*parse.Tree{})
	sym.Assert((err == nil) == (perr == nil), "not what the template language says of the text")
	if err == nil {
		sym.Assert(c33template(out), "no template")
	} else {
		sym.Assert(!c33template(out), "an error, and a template")
	}
}

// H_C33_output: outputs that cannot be opened.
func H_C33_output() {
	sym.WriteFile("in/a.tmpl", c33text)
	sym.WriteFile("file", "x")
	sym.Redirect(2, "err.txt")
	o := []string{"none/out.pot", "in", "file/out.pot", "none/"}[sym.Choose(4)]
	err := internal.Run(&internal.Param{Left: "{{", Right: "}}", Keyword: "T", Input: sym.Path("in/*.tmpl"), OutputFile: sym.Path("") + "/" + o})
	sym.Assert(err != nil, "an output that cannot be opened is not reported")
}

// H_C33_debug: debugging output changes nothing in the template or the verdict.
func H_C33_debug() {
	x := sym.FixStr(sym.StringIn(1, " a%\t")) // in a literal
	texts := []string{"{{T \"" + x + "b" + x + "\"}}{{X \"" + x + "\" \"" + x + x + "\"}}{{N \"c\" \"" + x + "d" + x + "\"}}", c33text, "{{T .x}}{{.y.T \"a\"}}", "{{if T \"a\"}}{{else}}{{$x := N \"b\" \"c\"}}{{end}}", "{{T \"a\" | N}}{{(T \"a\").b}}", "{{T \"a}}", "{{define \"x\"}}{{T \"%d\"}}{{end}}{{template \"x\" T \"a\"}}", "{{N \"a\" \"b\"}}{{T \"a\"}}", "",
		"{{define \"x\"}}{{end}}\n{{template \"x\"}}{{T \"a\"}}", "{{range .a}}{{break}}\n{{continue}}{{else}}{{T \"a\"}}{{end}}", "{{with nil}}{{end}}\n{{block \"y\" .}}{{end}}{{/* c */}}", "{{$x := .a}}{{$x = true}}\n\n{{range $i, $e := .a}}{{$e}}{{end}}", "{{true}}{{$}}{{.}}{{T nil}}\n{{nil | T}}"}
	sym.WriteFile("in/a.tmpl", []string{"", "\n", "text\r\n\r\n"}[sym.Choose(3)]+texts[sym.Choose(len(texts))])
	sym.WriteFile("in/b.tmpl", texts[sym.Choose(2)])
	sym.Redirect(1, "log.txt")
	p := internal.Param{Left: "{{", Right: "}}", Keyword: "T;N:1,2;X:1c,2", Function: "a,b"}
	want, werr := c33run(p)
	p.Debug = true
	out, err := c33run(p)
	sym.Assert((err == nil) == (werr == nil), "debugging changes the verdict")
	sym.Assert(c33body(out) == c33body(want), "debugging changes the template")
}

// c33body is a template without its date.
func c33body(s string) string {
	i := strings.Index(s, "POT-Creation-Date")
	if i < 0 {
		return s
	}
	return s[:i] + s[i+strings.IndexByte(s[i:], '\n'):]
}

// H_C33_listed: names in a list, with blanks and line ends around them.
func H_C33_listed() {
	sym.WriteFile("in/a.tmpl", c33text)
	ws := []string{"", " ", "\n", "\r\n", "\t", "\v\f", "\u00a0", " \n "}
	a, b := ws[sym.Choose(len(ws))], ws[sym.Choose(len(ws))]
	p := internal.Param{Left: "{{", Right: "}}", Keyword: "T", Function: a + "f" + b + "," + b + "g" + a + "," + a}
	if sym.Choose(2) == 1 {
		p.Function = "f," + a + b + "," + b + "," + a + "f"
	}
	out, err := c33run(p)
	c33result(out, err, true)
}
