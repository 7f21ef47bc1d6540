package h

import (
	"bytes"
	"strings"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// c16check reads a text both ways and uses what comes out.
func c16check(text string, use bool) {
	for _, read := range []func([]byte) (*translator.File, error){translator.ReadPo, translator.ReadPot} {
		f, err := read([]byte(text))
		sym.Assert((f == nil) == (err != nil), "neither a catalogue nor an error, or both")
		sym.ObserveBool("error", err != nil)
		if err != nil {
			sym.Assert(err.Error() != "", "error without text")
			continue
		}
		if !use {
			continue
		}
		f.Lang()
		f.GetHeader("X")
		n := sym.Int64()
		f.X("", "a")
		for _, e := range f.SortedEntry() {
			f.X(e.MsgCtxt, e.MsgID)
			f.XN64(e.MsgCtxt, e.MsgID, e.MsgID2, n)
			f.XN64(e.MsgCtxt, e.MsgID, "other", 1)
		}
		var a, b, c bytes.Buffer
		sym.Assert(f.SaveAsPo(&a) == nil, "save as PO")
		sym.Assert(f.SaveAsPot(&b) == nil, "save as POT")
		sym.Assert(f.SaveAsMo(&c) == nil, "save as MO")
	}
}

// H_C16_bytes: every short byte string.
func H_C16_bytes() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	c16check(sym.String(sym.Choose(max+1)), true)
}

var poKinds = []string{"msgid ", "msgstr ", "msgid_plural ", "msgstr[0] ", "", "#", "msgctxt ", "msgstr[1] ", " ", "msgstr[", "msgi", "domain "}

func poLine(kinds int) string {
	line := poKinds[sym.Choose(kinds)]
	switch sym.Choose(2 + kinds/len(poKinds)) {
	case 0:
		line += `"` + sym.StringIn(1, "a\\\"\n") + `"`
	case 1:
		line += sym.StringIn(1, "\" #\r")
	case 2:
		line += `"b"`
	}
	return line
}

// H_C16_lines: sequences of lines of every kind.
func H_C16_lines() {
	k, kinds := 3, len(poKinds)-3
	if sym.Thorough() {
		k = 3 + sym.Choose(2)
	}
	if k == 4 {
		kinds = 6
	} else if sym.Thorough() {
		kinds = len(poKinds)
	}
	text := ""
	for i := 0; i < k; i++ {
		text += poLine(kinds) + "\n"
	}
	c16check(text, true)
}

// H_C16_after: one arbitrary line after each point of a well-formed text.
func H_C16_after() {
	lines := []string{"# c", "msgctxt \"c\"", "msgid \"a\"", "\"b\"", "msgid_plural \"p\"", "msgstr[0] \"x\"", "\"y\"", "msgstr[1] \"z\"", "msgid \"q\"", "msgstr \"r\"", "\"s\""}
	at := sym.Choose(len(lines) + 1)
	text := "msgid \"\"\nmsgstr \"Language: xx\\nPlural-Forms: nplurals=2; plural=n != 1;\\n\"\n"
	for i, l := range lines {
		if i == at {
			text += poLine(len(poKinds)) + "\n"
			if sym.Choose(2) == 1 {
				continue // replaces the line
			}
		}
		text += l + "\n"
	}
	if at == len(lines) {
		text += poLine(len(poKinds))
	}
	c16check(text, true)
}

// H_C16_content: arbitrary bytes inside the quotes.
func H_C16_content() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	s := sym.String(1 + sym.Choose(max))
	switch sym.Choose(3) {
	case 0:
		c16check("msgid \"a\"\nmsgstr \""+s+"\"\n", false)
	case 1:
		c16check("msgid \""+s+"\"\nmsgstr \"b\"", false)
	case 2:
		c16check("msgid \"a\"\nmsgid_plural "+s+"\nmsgstr[0] \"b\"", false)
	}
}

// H_C16_header: arbitrary header lines and plural rules, and lookups with them.
func H_C16_header() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	s := sym.StringIn(1+sym.Choose(max), "=;:% 0n(\\")
	line := []string{"", "Plural-Forms: ", "Plural-Forms: nplurals=", "Plural-Forms: nplurals=3; plural=", "Language:", "Plural-Forms", "Plural-Forms:", "Language", "X:"}[sym.Choose(9)]
	text := "msgid \"\"\nmsgstr \"" + line + s + "\\n\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n"
	f, err := translator.ReadPo([]byte(text))
	if err != nil {
		return
	}
	for _, n := range []int64{0, 1, 2, -1, 1 << 62} {
		f.XN64("", "a", "as", n)
	}
	f.Lang()
	var c bytes.Buffer
	sym.Assert(f.SaveAsPo(&c) == nil, "save as PO")
}

// H_C16_truncated: every prefix of a well-formed text, with and without CR.
func H_C16_truncated() {
	text := "#c\nmsgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\n#: a.go:1\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\n\"y\"\nmsgstr[1] \"z\"\n\nmsgid \"b\"\nmsgstr \"c\"\n# end"
	if sym.Choose(2) == 1 {
		crlf := ""
		for _, c := range text {
			if c == '\n' {
				crlf += "\r"
			}
			crlf += string(c)
		}
		text = crlf
	}
	i := sym.Choose(len(text) + 1)
	c16check(text[:i], true)
	if sym.Choose(2) == 1 {
		c16check(text[i:], true)
	}
}

// H_C16_fields: sequences of well-formed lines in any order, with empty strings.
func H_C16_fields() {
	kinds := []string{"msgid ", "msgstr ", "msgid_plural ", "msgstr[0] ", "", "msgctxt ", "msgstr[1] ", "#", "msgstr[2] "}
	k, n := 3, 7
	if sym.Thorough() {
		k, n = 4, 9
	}
	text := ""
	for i := 0; i < k; i++ {
		text += kinds[sym.Choose(n)] + []string{`""`, `"x"`}[sym.Choose(2)] + "\n"
	}
	c16check(text, true)
}

// H_C16_words: texts of the code as lines, strings and header fields.
func H_C16_words() {
	w := sym.Word("translator", "any", 80)
	switch sym.Choose(7) {
	case 0:
		c16check(w, true)
	case 1:
		c16check(w+"\n"+w, true)
	case 2:
		c16check("msgid \"a\"\n"+w+" \"b\"\nmsgstr \"c\"\n", true)
	case 3:
		c16check("msgid \"a\"\nmsgstr \""+w+"\"\n"+w, true)
	case 4:
		c16check("msgid \"\"\nmsgstr \""+w+"\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"b\"\n", true)
	case 5:
		c16check("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural="+w+"\\n\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"b\"\n", true)
	case 6:
		c16check("#"+w+"\nmsgid \"a\"\nmsgstr["+w+"] \"b\"\n", true)
	}
}

// H_C16_size: sizes the code mentions.
func H_C16_size() {
	k := sym.Size("translator", 1, 3000)
	x := sym.String(1)
	switch sym.Choose(6) {
	case 0:
		c16check(sized(k, x), true)
	case 1:
		c16check("msgid \""+sized(k, x)+"\"\nmsgstr \"a\"\n", true)
	case 2:
		c16check("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr["+itoa(k)+"] \"a\"\n", true)
	case 3:
		c16check("msgid \"\"\nmsgstr \"Plural-Forms: nplurals="+itoa(k)+"; plural=n;\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"a\"\n", true)
	case 4:
		c16check(strings.Repeat("#"+x+"\n", k%300)+"msgid \"a\"\nmsgstr \"b\"\n", true)
	case 5:
		c16check("msgid \"a\"\nmsgstr \"\"\n"+strings.Repeat("\"b\"\n", k%300)+x, true)
	}
}

// H_C16_index: any text as the index of a plural form.
func H_C16_index() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	i := sym.StringIn(sym.Choose(max+1), "-+0129 ]x")
	text := "msgid \"a\"\nmsgid_plural \"as\"\n" + []string{"", "msgstr[0] \"x\"\n", "msgstr \"x\"\n"}[sym.Choose(3)]
	text += "msgstr[" + i + "] \"y\"\n" + []string{"", "\"z\"\n", "msgstr[1] \"z\"\n"}[sym.Choose(3)]
	c16check(text, true)
}

// H_C16_shape: long texts with blanks and line ends in unusual places, written again.
func H_C16_shape() {
	k := sym.Size("translator", 1, 400)
	if k > 3000 {
		return
	}
	x := letters(1)
	w := strings.ReplaceAll(shaped(k, x), "\n", "\\n")
	switch sym.Choose(3) {
	case 0:
		c16check("msgid \"a\"\nmsgstr \""+w+"\"\n", true)
	case 1:
		c16check("msgctxt \"a\"\nmsgid \""+w+"\"\nmsgstr \"a\"\n", true)
	case 2:
		c16check("msgid \"\"\nmsgstr \""+w+"\"\n", true)
	}
}

// H_C16_numbers: numbers of any size where a text has one.
func H_C16_numbers() {
	n := []string{"2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "999999999999", "4611686018427387904", "9223372036854775807", "9223372036854775808", "18446744073709551616", "-1", "-9223372036854775808", "99999999999999999999999", "00000000000000000000000000000001", "1e9", "0x7f"}
	v := n[sym.Choose(len(n))]
	switch sym.Choose(4) {
	case 0:
		c16check("msgid \"\"\nmsgstr \"Plural-Forms: nplurals="+v+"; plural=n;\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"a\"\n", true)
	case 1:
		c16check("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural="+[]string{"", "n*", "n+", "n%", "n/", "-", "n?"}[sym.Choose(7)]+v+";\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"a\"\n", true)
	case 2:
		c16check("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr["+v+"] \"a\"\n", true)
	case 3:
		c16check("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr["+v+"] \"a\"\n", true)
	}
}
