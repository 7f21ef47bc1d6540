package h

import (
	"os"
	"strconv"
	"strings"

	"github.com/youthlin/t/cmd/xtemplate/internal"
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// use is one call of a keyword in a template.
type use struct {
	item
	text string // the call
	ref  string
}

// useOf is a call whose context, id and plural id may equal those of others.
func useOf(kinds int, ids func() string) use {
	id := ids()
	switch sym.Choose(kinds) {
	case 0:
		return use{item: item{id: id}, text: "T \"" + id + "\""}
	case 1:
		p := "p" + ids()
		return use{item: item{id: id, id2: p, plural: true}, text: ".N \"" + id + "\" \"" + p + "\" 3"}
	case 2:
		c := digit('0')
		return use{item: item{id: id, ctx: c}, text: "$.X \"" + c + "\" \"" + id + "\""}
	}
	c, p := digit('0'), "p"+ids()
	return use{item: item{id: id, ctx: c, id2: p, plural: true}, text: "XN \"" + c + "\" \"" + id + "\" \"" + p + "\" .n"}
}

// merge is what the uses, in the order they are found, give.
func merge(us []use) (want []item, conflict bool) {
	for _, u := range us {
		if u.ctx == "" && u.id == "" {
			continue // reserved for the header
		}
		known := false
		for i := range want {
			w := &want[i]
			if w.ctx == u.ctx && w.id == u.id {
				known = true
				if w.plural == u.plural {
					w.refs = append(w.refs, u.ref)
				} else {
					conflict = true
				}
				break
			}
		}
		if !known {
			it := u.item
			it.refs = []string{u.ref}
			want = append(want, it)
		}
	}
	return
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// check compares the output with the uses.
func check(got []item, us []use) (conflict bool) {
	want, conflict := merge(us)
	sym.Assert(len(got) == len(want), "number of entries")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g.ctx != w.ctx || g.id != w.id {
				continue
			}
			n++
			sym.Assert(g.plural == w.plural, "not the first use's kind")
			sym.Assert(g.id2 == w.id2, "not the first use's plural")
			sym.Assert(len(g.refs) == len(w.refs), "number of references")
			for _, r := range w.refs {
				sym.Assert(has(g.refs, r), "a reference is lost")
			}
			if strings.Contains(w.id, "%") || strings.Contains(w.id2, "%") {
				sym.Assert(has(g.flags, "go-format"), "no format flag")
			}
			verb := false
			for _, u := range us {
				if u.ctx == w.ctx && u.id == w.id && (strings.Contains(u.id, "%") || strings.Contains(u.id2, "%")) {
					verb = true
				}
			}
			if !verb {
				sym.Assert(!has(g.flags, "go-format"), "a format flag without verb")
			}
			for _, f := range g.flags {
				sym.Assert(f == "go-format", "unknown flag")
			}
		}
		sym.Assert(n == 1, "not exactly one entry of a message")
	}
	return conflict
}

const specC27 = "T;N:1,2;X:1c,2;XN:1c,2,3"

// run runs the extractor with standard error kept in a file.
func run(in, keywords, out string) error {
	sym.Redirect(2, "err.txt")
	return internal.Run(&internal.Param{Input: in, Left: "{{", Right: "}}", Keyword: keywords, OutputFile: out})
}

func stderr() string {
	s, _ := sym.ReadFile("err.txt")
	return s
}

func finish(err error, us []use) {
	sym.Assert(err == nil, "the extractor fails")
	out, _ := sym.ReadFile("out.pot")
	_, ok, got := readPot(out)
	sym.Assert(ok, "no header")
	conflict := check(got, us)
	if conflict {
		sym.Assert(stderr() != "", "no warning about a message with and without plural")
	} else {
		sym.Assert(stderr() == "", "a warning without reason")
	}
	sym.Cover("done")
}

// H_C27_merge: calls spread over lines and files.
func H_C27_merge() {
	kinds, n := 4, 2
	if sym.Thorough() {
		n = 3
	}
	var us []use
	files := []string{"", ""}
	f, line := 0, 1
	for i := 0; i < n; i++ {
		u := useOf(kinds, func() string { return digit('0') })
		switch sym.Choose(3) {
		case 0:
		case 1: // the next line
			files[f] += "\n"
			line++
		case 2: // the next file
			if f == 1 {
				return
			}
			f, line = 1, 1
		}
		files[f] += "{{" + u.text + "}}"
		u.ref = sym.Path("in/"+string([]byte{'a' + byte(f)})+".tmpl") + ":" + strconv.Itoa(line)
		us = append(us, u)
	}
	sym.WriteFile("in/a.tmpl", files[0])
	sym.WriteFile("in/b.tmpl", files[1])
	finish(run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot")), us)
}

// H_C27_verbs: the format flag, whatever the ids contain.
func H_C27_verbs() {
	n := 1
	if sym.Thorough() {
		n = 2
	}
	id := func() string {
		s := sym.String(n)
		for i := 0; i < n; i++ {
			sym.Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
			sym.Assume(i == 0 || s[i] == '%' || s[i] == 'd' || s[i] == ' ')
		}
		return s
	}
	u := useOf(4, id)
	u.ref = sym.Path("in/a.tmpl") + ":1"
	sym.WriteFile("in/a.tmpl", "{{"+u.text+"}}")
	finish(run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot")), []use{u})
}

// undated drops the line with the creation date.
func undated(s string) string {
	i := strings.Index(s, "\"POT-Creation-Date: ")
	if i < 0 {
		return s
	}
	j := strings.IndexByte(s[i:], '\n')
	return s[:i] + s[i+j+1:]
}

// H_C27_reproducible: the same input gives the same output, in whatever order
// maps are iterated.
func H_C27_reproducible() {
	var s string
	switch sym.Choose(6) {
	case 0: // two messages on one line
		s = "{{T \"1\"}}{{T \"2\"}}"
	case 1: // on two lines
		s = "{{T \"2\"}}\n{{T \"1\"}}"
	case 2: // conflicting uses in two definitions
		s = "{{define \"5\"}}{{T \"1\"}}{{end}}{{define \"4\"}}{{N \"1\" \"2\"}}{{end}}"
	case 3: // different plurals in two definitions
		s = "{{define \"5\"}}{{N \"1\" \"3\"}}{{end}}{{define \"4\"}}{{N \"1\" \"2\"}}{{end}}"
	case 4: // a definition and the main template, the same message
		s = "{{define \"5\"}}{{N \"1\" \"3\"}}{{end}}{{N \"1\" \"2\"}}"
	case 5: // three messages on one line
		if !sym.Thorough() {
			return
		}
		s = "{{T \"2\"}}{{T \"3\"}}{{T \"1\"}}"
	}
	sym.WriteFile("in/a.tmpl", s)
	var outs, errs [2]string
	for i := range outs {
		sym.MapOrder(i == 1)
		err := run(sym.Path("in/*.tmpl"), "T;N:1,2", sym.Path("out.pot"))
		sym.MapOrder(false)
		sym.Assert(err == nil, "the extractor fails")
		out, _ := sym.ReadFile("out.pot")
		outs[i], errs[i] = undated(out), stderr()
	}
	sym.Assert(outs[0] == outs[1], "the output depends on the order of a map")
	sym.Assert((errs[0] == "") == (errs[1] == ""), "the warning depends on the order of a map")
}

// H_C27_files: files in name order, whatever they contain.
func H_C27_files() {
	k := sym.Choose(2)
	a := []string{"{{T \"m\"}}", "{{N \"m\" \"q\" 1}}"}[k]
	b := []string{"{{N \"m\" \"q\" 1}}", "{{T \"m\"}}"}[k]
	ns := [][2]string{{"a", "b"}, {"aa", "b"}, {"a10", "a9"}, {"B", "a"}, {"a", "é"}}[sym.Choose(5)]
	first, second := ns[0], ns[1]
	if sym.Choose(2) == 1 {
		a, b = b, a
		k = 1 - k
	}
	sym.WriteFile("in/"+second+".tmpl", b)
	sym.WriteFile("in/"+first+".tmpl", a)
	it := item{id: "m"}
	if k == 1 {
		it.id2, it.plural = "q", true
	}
	err := run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot"))
	sym.Assert(err == nil, "the extractor fails")
	out, _ := sym.ReadFile("out.pot")
	_, _, got := readPot(out)
	sameItems(got, []item{it})
	sym.Assert(stderr() != "", "no warning about a message with and without plural")
}

// H_C27_header: the header is one entry, whatever the messages.
func H_C27_header() {
	x := letters(1)
	texts := []string{
		"", "text", "{{T \"\"}}", "{{T \"\"}}{{T \"" + x + "\"}}", "{{T \"" + x + "\"}}{{T \"\"}}", "{{N \"\" \"" + x + "\"}}", "{{X \"c\" \"\"}}", "{{X \"\" \"" + x + "\"}}", "{{X \"\" \"\"}}", "{{XN \"\" \"\" \"" + x + "\"}}", "{{T \"\"}}{{T \"\"}}{{N \"\" \"\"}}",
	}
	n := sym.Choose(len(texts))
	want := [][]item{{}, {}, {}, {{id: x}}, {{id: x}}, {}, {{ctx: "c"}}, {{id: x}}, {}, {}, {}}[n]
	sym.WriteFile("in/a.tmpl", texts[n])
	err := run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot"))
	sym.Assert(err == nil, "the extractor fails")
	out, _ := sym.ReadFile("out.pot")
	h, ok, got := readPot(out)
	sym.Assert(ok, "no header")
	sameItems(got, want)
	sym.Assert(strings.Contains(h, "Content-Type: text/plain; charset=") && strings.Contains(h, "MIME-Version: 1.0\n") && strings.Contains(h, "POT-Creation-Date: "), "the header lacks a field")
	sym.Assert(strings.Count(out, "POT-Creation-Date: ") == 1, "not one header")
	plural := false
	for _, g := range got {
		plural = plural || g.plural
	}
	sym.Assert(!plural || strings.Contains(h, "Plural-Forms: "), "no Plural-Forms field though there are plurals")
	sym.Assert(strings.HasPrefix(h, "Project-Id-Version: ") && strings.HasSuffix(h, "\n"), "the header is cut")
}

// H_C27_loads: the library itself loads the template.
func H_C27_loads() {
	u, v := useOf(4, func() string { return digit('0') }), use{item: item{id: "%d"}, text: "T \"%d\""}
	sym.WriteFile("in/a.tmpl", "{{"+u.text+"}}{{"+v.text+"}}")
	err := run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.po"))
	sym.Assert(err == nil, "the extractor fails")
	out, _ := sym.ReadFile("out.po")
	f, err := translator.ReadPo([]byte(out))
	sym.Assert(err == nil && f != nil, "the library cannot read the template")
	if f != nil {
		_, ok := f.GetHeader("Project-Id-Version")
		sym.Assert(ok, "the library finds no header in the template")
	}
}

// H_C27_faults: what cannot be read or parsed makes the run fail.
func H_C27_faults() {
	bad := []string{"{{", "{{T \"a}}", "{{if}}", "{{end}}", "{{T \"a\"", "{{range .a}}{{T \"b\"}}", "{{define \"x\"}}", "{{T `a}}", "{{else}}", "{{(T \"a\"}}", "{{T 'ab'}}", "{{/* a", "{{$x}}", "{{break}}", "{{template}}", "{{with .a}}{{else if}}{{end}}", "{{T \"\\q\"}}", "{{define \"x\"}}a{{end}}{{define \"x\"}}b{{end}}{{nope", "{{define \"a\"}}"}
	in, kw, out := sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot")
	names := []string{"a", "b", "c"}
	at := sym.Choose(3)
	fault := sym.Choose(5)
	for i, n := range names {
		switch {
		case i == at && fault == 0: // malformed
			sym.WriteFile("in/"+n+".tmpl", bad[sym.Choose(len(bad))])
		case i == at && fault == 1: // a directory
			sym.WriteFile("in/"+n+".tmpl/x", "")
		default:
			sym.WriteFile("in/"+n+".tmpl", "{{T \""+n+"\"}}")
		}
	}
	switch fault {
	case 2:
		kw = []string{"T:", "T:x", "T:1,2,3,4", "", ";", "T:1c"}[sym.Choose(6)]
		if kw == "" || kw == ";" {
			return // no keywords: C25
		}
	case 3:
		in = []string{sym.Path("in/[.tmpl"), sym.Path("in/[a-"), sym.Path("in/a\\")}[sym.Choose(3)]
	case 4:
		out = []string{sym.Path("in"), sym.Path("no/such/dir.pot")}[sym.Choose(2)]
	}
	err := run(in, kw, out)
	sym.Assert(err != nil, "a fault is ignored")
	if fault < 2 {
		sym.Assert(strings.Contains(stderr(), names[at]+".tmpl") || strings.Contains(err.Error(), names[at]+".tmpl"), "the file at fault is not named")
	}
}

// H_C27_stdout: without output file, or with "-", the template goes to the
// standard output.
func H_C27_stdout() {
	x := letters(1)
	sym.WriteFile("in/a.tmpl", "{{T \"a"+x+"\"}}")
	o := ""
	if sym.Choose(2) == 1 {
		o = "-"
	}
	sym.Redirect(1, "stdout.txt")
	sym.Assert(run(sym.Path("in/*.tmpl"), specC27, o) == nil, "the extractor fails")
	out, _ := sym.ReadFile("stdout.txt")
	_, ok, got := readPot(out)
	sym.Assert(ok, "no header")
	sameItems(got, []item{{id: "a" + x}})
	_, err := os.Stdout.WriteString("end\n")
	sym.Assert(err == nil, "the standard output was closed")
}

// H_C27_overwrite: an existing output file is replaced as a whole.
func H_C27_overwrite() {
	x := letters(1)
	sym.WriteFile("in/a.tmpl", "{{T \"a"+x+"\"}}")
	sym.WriteFile("out.pot", strings.Repeat("msgid \"old\"\n", 200))
	sym.Assert(run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot")) == nil, "the extractor fails")
	out, _ := sym.ReadFile("out.pot")
	_, ok, got := readPot(out)
	sym.Assert(ok, "no header")
	sameItems(got, []item{{id: "a" + x}})
}

// H_C27_lines: the line of a reference, with line breaks anywhere.
func H_C27_lines() {
	nl := func() (string, int) {
		n := sym.Choose(3)
		return strings.Repeat("\n", n), n
	}
	a, na := nl()
	b, nb := nl()
	c, nc := nl()
	var s string
	var want [2]int
	switch sym.Choose(5) {
	case 0: // after text and an action
		s, want = "x"+a+"{{.y}}"+b+"{{T \"1\"}}"+c+"{{T \"2\"}}", [2]int{1 + na + nb, 1 + na + nb + nc}
	case 1: // around trimmed space
		s, want = a+"{{- T \"1\" -}}"+b+c+"{{T \"2\"}}", [2]int{1 + na, 1 + na + nb + nc}
	case 2: // after a comment, inside a condition
		s, want = "{{/* "+a+" */}}{{if .a}}"+b+"{{T \"1\"}}"+c+"{{else}}{{T \"2\"}}{{end}}", [2]int{1 + na + nb, 1 + na + nb + nc}
	case 3: // after a raw string with line breaks
		s, want = "{{T \"1\"}}{{`"+a+"`}}"+b+"{{range .x}}"+c+"{{T \"2\"}}{{end}}", [2]int{1, 1 + na + nb + nc}
	case 4: // in definitions
		s, want = a+"{{define \"d\"}}"+b+"{{T \"1\"}}{{end}}"+c+"{{block \"e\" .}}{{T \"2\"}}{{end}}", [2]int{1 + na + nb, 1 + na + nb + nc}
	}
	sym.WriteFile("in/a.tmpl", s)
	us := []use{{item: item{id: "1"}}, {item: item{id: "2"}}}
	for i := range us {
		us[i].ref = sym.Path("in/a.tmpl") + ":" + strconv.Itoa(want[i])
	}
	finish(run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot")), us)
}

// H_C27_paths: references name the file as it was found, whatever its name.
func H_C27_paths() {
	dirs := []string{"in", "x.", "a/b.", "..d", "in/in", "d-e_f", "über", "in.tmpl"}
	names := []string{"a.tmpl", ".tmpl", "a.b.tmpl", "a.tmpl.tmpl", "%d.tmpl", "ü.tmpl", "#.tmpl", "a:1.tmpl"}
	d, n := dirs[sym.Choose(len(dirs))], names[sym.Choose(len(names))]
	x := digit('0')
	sym.WriteFile(d+"/"+n, "a\n{{T \""+x+"\"}}")
	err := run(sym.Path(d)+"/*.tmpl", specC27, sym.Path("out.pot"))
	sym.Assert(err == nil, "the extractor fails")
	out, _ := sym.ReadFile("out.pot")
	_, ok, got := readPot(out)
	sym.Assert(ok, "no header")
	sameItems(got, []item{{id: x}})
	sym.Assert(len(got) == 1 && len(got[0].refs) == 1, "references")
	if len(got) == 1 && len(got[0].refs) == 1 {
		sym.Assert(got[0].refs[0] == sym.Path(d)+"/"+n+":2", "the reference does not name the file")
	}
}

// H_C27_many: more messages, one of them plural, one used often.
func H_C27_many() {
	n := 2 + sym.Choose(6)
	at := sym.Choose(n+1) - 1
	x := digit('0')
	s := ""
	var us []use
	for i := 0; i < n; i++ {
		u := use{item: item{id: "m" + string([]byte{'0' + byte(i)}) + x}}
		u.text = "T \"" + u.id + "\""
		if i == at {
			u.id2, u.plural = "p", true
			u.text = "N \"" + u.id + "\" \"p\" 2"
		}
		for k := 0; k <= i%3; k++ {
			u.ref = sym.Path("in/a.tmpl") + ":" + strconv.Itoa(1+strings.Count(s, "\n"))
			s += "{{" + u.text + "}}\n"
			us = append(us, u)
		}
	}
	sym.WriteFile("in/a.tmpl", s)
	finish(run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot")), us)
	out, _ := sym.ReadFile("out.pot")
	h, _, _ := readPot(out)
	sym.Assert(at < 0 || strings.Contains(h, "Plural-Forms: "), "no Plural-Forms field though there is a plural")
}

// H_C27_size: lines, files, uses and messages in the numbers the code mentions.
func H_C27_size() {
	x := digit('0')
	a := sym.Path("in/a.tmpl")
	var us []use
	switch sym.Choose(5) {
	case 0: // the line
		k := sym.Size("", 1, 5000)
		sym.WriteFile("in/a.tmpl", strings.Repeat("\n", k-1)+"{{T \""+x+"\"}}\n{{T \""+x+"\"}}")
		us = append(us, use{item: item{id: x}, ref: a + ":" + strconv.Itoa(k)}, use{item: item{id: x}, ref: a + ":" + strconv.Itoa(k+1)})
	case 1: // uses of one message
		k := sym.Size("", 1, 130)
		s := ""
		one := sym.Choose(2) == 1 // all on one line
		for i := 0; i < k; i++ {
			line := strconv.Itoa(i + 1)
			s += "{{X \"c\" \"" + x + "\"}}"
			if one {
				line = "1"
			} else {
				s += "\n"
			}
			us = append(us, use{item: item{ctx: "c", id: x}, ref: a + ":" + line})
		}
		sym.WriteFile("in/a.tmpl", s)
	case 2: // messages
		k := sym.Size("", 1, 130)
		s := ""
		for i := 0; i < k; i++ {
			id := strconv.Itoa(i) + "m" + x
			s += "{{N \"" + id + "\" \"p\" 1}}\n"
			us = append(us, use{item: item{id: id, id2: "p", plural: true}, ref: a + ":" + strconv.Itoa(i+1)})
		}
		sym.WriteFile("in/a.tmpl", s)
	case 3: // files
		k := sym.Size("", 1, 40)
		for i := 0; i < k; i++ {
			n := "in/" + strconv.Itoa(1000+i) + ".tmpl"
			sym.WriteFile(n, "{{T \"one"+x+"\"}}")
			us = append(us, use{item: item{id: "one" + x}, ref: sym.Path(n) + ":1"})
		}
	case 4: // the length of a message
		k := sym.Size("", 1, 3000)
		it := item{id: strings.Repeat("i", k) + x, id2: strings.Repeat("p", k) + x, ctx: strings.Repeat("c", k) + x, plural: true}
		sym.WriteFile("in/a.tmpl", "{{XN \""+it.ctx+"\" \""+it.id+"\" \""+it.id2+"\" 1}}")
		us = append(us, use{item: it, ref: a + ":1"})
	}
	finish(run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot")), us)
}

// H_C27_words: texts of the code as messages.
func H_C27_words() {
	w := sym.Word("", "any", 80)
	for i := 0; i < len(w); i++ {
		if w[i] < ' ' || w[i] >= 0x7f || w[i] == '`' {
			return
		}
	}
	if w == "" {
		return
	}
	x := digit('0')
	a := sym.Path("in/a.tmpl") + ":"
	sym.WriteFile("in/a.tmpl", "{{T `"+w+"`}}\n{{X `"+w+"` \""+x+"\"}}\n{{X \""+x+"\" `"+w+"`}}\n{{N \""+x+"\" `"+w+"` 1}}\n{{T `"+w+"`}}")
	us := []use{{item: item{id: w}, ref: a + "1"}, {item: item{ctx: w, id: x}, ref: a + "2"}, {item: item{ctx: x, id: w}, ref: a + "3"}, {item: item{id: x, id2: w, plural: true}, ref: a + "4"}, {item: item{id: w}, ref: a + "5"}}
	if len(w) == 1 && w[0] >= '0' && w[0] <= '9' {
		return // may equal the other id
	}
	finish(run(sym.Path("in/*.tmpl"), specC27, sym.Path("out.pot")), us)
}
