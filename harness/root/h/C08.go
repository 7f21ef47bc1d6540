package h

import (
	"strings"

	"fmt"

	"github.com/youthlin/t/f"
	"github.com/youthlin/t/zzverif/sym"
)

// used gives how many leading arguments a text's verbs refer to; ok is false
// when the verbs are malformed or refer to arguments that are not there.
func used(text string, nargs int) (n int, ok bool) {
	arg := 0
	take := func() {
		if arg++; arg > n {
			n = arg
		}
	}
	i := 0
	index := func() bool { // [k]
		if i >= len(text) || text[i] != '[' {
			return true
		}
		k, j := 0, i+1
		for ; j < len(text) && text[j] >= '0' && text[j] <= '9'; j++ {
			k = k*10 + int(text[j]-'0')
		}
		if j >= len(text) || text[j] != ']' || j == i+1 || k == 0 {
			return false
		}
		arg, i = k-1, j+1
		return true
	}
	for i < len(text) {
		if text[i] != '%' {
			i++
			continue
		}
		i++
		special := false
		for i < len(text) && (text[i] == '+' || text[i] == '-' || text[i] == '#' || text[i] == ' ' || text[i] == '0') {
			i++
		}
		for part := 0; part < 2; part++ { // width, precision
			if part == 1 {
				if i >= len(text) || text[i] != '.' {
					break
				}
				if i++; i >= len(text) {
					return n, false // Go versions differ
				}
			}
			if i < len(text) && text[i] == '[' {
				special = true
			}
			if !index() {
				return n, false
			}
			if i < len(text) && text[i] == '*' {
				special = true
				take()
				i++
				continue
			}
			for i < len(text) && text[i] >= '0' && text[i] <= '9' {
				if special {
					return n, false // a width after an index
				}
				i++
			}
		}
		if i < len(text) && text[i] == '[' {
			special = true
		}
		if !index() {
			return n, false
		}
		if i >= len(text) {
			return n, !special && n <= nargs // an unfinished verb
		}
		c := text[i]
		i++
		if c >= 0x80 {
			return n, false
		}
		if c == '%' {
			continue
		}
		take()
	}
	return n, n <= nargs
}

func checkFormat(text string, args []any) {
	n, ok := used(text, len(args))
	if !ok {
		f.Format(text, args...)
		return
	}
	got := f.Format(text, args...)
	want := text
	if len(args) > 0 {
		want = fmt.Sprintf(text, args[:n]...)
	}
	sym.ObserveStr("got", got)
	sym.Assert(got == want, "Format differs from Sprintf of the arguments the text uses")
}

func argList() []any {
	switch sym.Choose(9) {
	case 7:
		return []any{1, 2, 3, 4, 5, 6, 7, 8, "I", "J", "K", 12}
	case 5:
		return []any{nil}
	case 6:
		return []any{"", nil}
	case 0:
		return []any{"A"}
	case 1:
		return []any{7}
	case 2:
		return []any{"A", -3}
	case 3:
		return []any{12, "B", true}
	case 4:
		return []any{nil, 'x'}
	}
	return []any{2, 1.5, "C", []string{"p", "q"}}
}

// H_C08_plain: without arguments the text comes back unchanged.
func H_C08_plain() {
	max := 6
	if sym.Thorough() {
		max = 10
	}
	text := sym.String(sym.Choose(max + 1))
	sym.Assert(f.Format(text) == text, "text without arguments changed")
	var none []any
	sym.Assert(f.Format(text, none...) == text, "text with empty arguments changed")
	sym.ObserveStr("text", f.Format(text))
}

// H_C08_verbs: texts over the alphabet of verbs, every argument list.
func H_C08_verbs() {
	max := 4
	if sym.Thorough() {
		max = 6
	}
	args := argList()
	checkFormat(sym.StringIn(sym.Choose(max+1), "%sdvqT[]12.*+ 0-z"), args)
}

// H_C08_two: a verb, arbitrary text, another verb.
func H_C08_two() {
	verbs := []string{"%s", "%d", "%v", "%[2]v", "%[1]d", "%%", "%5d", "%-4s|", "%.2f", "%x", "%c", "%q", "%[1]*[2]d", "%*d", "%+v", "%U", "%t", "%T", "%w", "%", "%[9]s", "%[12]v", "%v%v%v%v%v%v%v%v%v"}
	a, b := verbs[sym.Choose(len(verbs))], verbs[sym.Choose(len(verbs))]
	mid := sym.String(sym.Choose(2))
	for i := 0; i < len(mid); i++ {
		sym.Assume(mid[i] < 0x80)
	}
	checkFormat(a+mid+b, argList())
}

// H_C08_bytes: any text of up to three bytes.
func H_C08_bytes() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	checkFormat(sym.String(sym.Choose(max+1)), argList())
}

// H_C08_args: symbolic argument values.
func H_C08_args() {
	s, b := sym.String(sym.Choose(3)), sym.Byte()
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	text := []string{"%s|%d", "%[2]d %[1]s", "%s", "%3d%[1]v", "%[2]x", "%v %v", "a%%b%s"}[sym.Choose(7)]
	args := []any{s, int(b)}
	if sym.Choose(2) == 1 {
		args = append(args, "extra", 9)
	}
	checkFormat(text, args)
}

// H_C08_memory: the caller's slice and its spare capacity are left alone.
func H_C08_memory() {
	back := []any{"A", 1, "B", "C", "D"}
	n := sym.Choose(5)
	args := back[:n:len(back)]
	if sym.Choose(2) == 1 {
		args = back[: n : n+1]
	}
	text := []string{"%s", "%v %v %v", "x", "%", "%[1]v", ""}[sym.Choose(6)]
	if sym.Choose(2) == 1 {
		f.Format(text, args...)
	} else {
		f.DefaultPlural(text, "pl"+text, sym.Int64(), args...)
	}
	sym.Assert(back[0] == "A" && back[1] == 1 && back[2] == "B" && back[3] == "C" && back[4] == "D", "Format wrote into the caller's slice")
}

// H_C08_words: texts of the code as formats.
func H_C08_words() {
	w := sym.Word("", "any", 80)
	switch sym.Choose(3) {
	case 1:
		w += "%s"
	case 2:
		w = "%[2]v" + w
	}
	sym.Assert(f.Format(w) == w, "text without arguments changed")
	checkFormat(w, argList())
}

// H_C08_argwords: texts of the code, and what package fmt writes for its own errors,
// as arguments, with as many arguments as verbs, more, and fewer.
func H_C08_argwords() {
	var w string
	if k := sym.Choose(8); k < 7 {
		w = []string{"%!(EXTRA string=x)", "a%!(EXTRA b", "%!d(string=x)", "%!(NOVERB)", "%!(BADINDEX)", "%", "%!%(PANIC=x)"}[k]
	} else {
		w = sym.Word("", "any", 40)
	}
	text := []string{"%s", "[%s]", "%[1]v%d", "%s%s%s", "%q|%v"}[sym.Choose(5)]
	switch sym.Choose(3) {
	case 0:
		checkFormat(text, []any{w})
	case 1:
		checkFormat(text, []any{w, 7})
	case 2:
		checkFormat(text, []any{w, w, w, "s", 7})
	}
}

// H_C08_size: lengths, widths and numbers of verbs and arguments the code mentions.
func H_C08_size() {
	if sym.Choose(2) == 0 {
		k := sym.Size("", 1, 5000)
		long := sized(k, "x")
		checkFormat([]string{long + "%s", "%s" + long, long, long + "%d%[1]s"}[sym.Choose(4)], []any{"A", 7})
		checkFormat("%s|", []any{long, 3})
		return
	}
	k := sym.Size("", 1, 130)
	var args []any
	for i := 0; i < k+1; i++ {
		args = append(args, i*3)
	}
	text := ""
	switch sym.Choose(5) {
	case 0:
		text = strings.Repeat("%d,", k)
	case 1:
		text = "%[" + itoa(k) + "]d,%[1]v"
	case 2:
		text = "%" + itoa(k) + "d"
	case 3:
		text = "%." + itoa(k) + "d|%s"
	case 4:
		text = strings.Repeat("%%", k) + "%v"
	}
	checkFormat(text, args[:k-sym.Choose(2)+1])
}
