package h

import (
	"strconv"
	"strings"

	"github.com/youthlin/t/cmd/xtemplate/internal"
	"github.com/youthlin/t/zzverif/sym"
)

// item is one entry of the extractor's output.
type item struct {
	ctx, id, id2 string
	plural       bool
	refs         []string
	flags        []string
	other        []string // other comments
}

// readPot reads the entries of a template (and the header's value), by itself.
func readPot(out string) (header string, hasHeader bool, items []item) {
	var cur item
	var str string
	var to *string
	started := false
	flush := func() {
		if !started {
			return
		}
		if cur.ctx == "" && cur.id == "" {
			sym.Assert(!hasHeader, "two headers")
			header, hasHeader = str, true
		} else {
			sym.Assert(str == "", "a template entry is translated")
			items = append(items, cur)
		}
		cur, str, to, started = item{}, "", nil, false
	}
	for _, line := range strings.Split(out, "\n") {
		switch {
		case line == "":
			flush()
			continue
		case strings.HasPrefix(line, "#: "):
			cur.refs = append(cur.refs, strings.Fields(line[3:])...)
			continue
		case strings.HasPrefix(line, "#, "):
			cur.flags = append(cur.flags, strings.Split(line[3:], ", ")...)
			continue
		case strings.HasPrefix(line, "#"):
			cur.other = append(cur.other, line)
			continue
		}
		started = true
		q := strings.IndexByte(line, '"')
		if q < 0 {
			sym.Fail("line without string")
			return
		}
		switch kw := strings.TrimSpace(line[:q]); kw {
		case "msgctxt":
			to = &cur.ctx
		case "msgid":
			to = &cur.id
		case "msgid_plural":
			to, cur.plural = &cur.id2, true
		case "msgstr", "msgstr[0]", "msgstr[1]":
			to = &str
		case "":
		default:
			sym.Fail("unknown line")
			return
		}
		s, err := strconv.Unquote(line[q:])
		sym.Assert(err == nil && to != nil, "bad string")
		if to != nil {
			*to += s
		}
	}
	flush()
	return
}

// extract runs the extractor on template texts and reads its output.
func extract(keywords, left, right string, texts ...string) (string, []item) {
	for i, s := range texts {
		sym.WriteFile("in/"+string([]byte{'a' + byte(i)})+".tmpl", s)
	}
	err := internal.Run(&internal.Param{Input: sym.Path("in/*.tmpl"), Left: left, Right: right, Keyword: keywords, OutputFile: sym.Path("out.pot")})
	sym.Assert(err == nil, "the extractor fails")
	out, ok := sym.ReadFile("out.pot")
	sym.Assert(ok, "no output")
	h, has, items := readPot(out)
	sym.Assert(has, "no header")
	return h, items
}

func (a item) same(b item) bool {
	return sym.And(sym.And(a.ctx == b.ctx, a.id == b.id), sym.And(a.id2 == b.id2, a.plural == b.plural))
}

// sameItems: the same (context, id, plural id) in any order.
func sameItems(got, want []item) {
	sym.Assert(len(got) == len(want), "number of entries")
	for _, w := range want {
		in := false
		for _, g := range got {
			in = sym.Or(in, g.same(w))
		}
		sym.Assert(in, "a call was not extracted as declared")
	}
}
