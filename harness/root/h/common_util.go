package h

import (
	"strings"

	"github.com/youthlin/t/zzverif/sym"
)

// fallback is what a message without usable translation gives.
func fallback(got, id, id2 string, n int64, tail string) bool {
	if id2 == "" {
		return got == id+tail
	}
	return sym.Or(sym.And(n == 1, got == id+tail), sym.And(n != 1, got == id2+tail))
}

func name(max int) string { return sym.String(sym.Choose(max + 1)) }

func sameList(got, want []string) {
	sym.Assert(len(got) == len(want), "list of locales: length")
	for i := range got {
		if i < len(want) {
			sym.Assert(got[i] == want[i], "list of locales: element")
		}
	}
}

func b2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

// letters is a text that needs no quoting.
func letters(n int) string {
	s := sym.String(n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] >= 'a')
		sym.Assume(s[i] <= 'z')
	}
	return s
}

// mix flips the case of letters: mask bit i for letter i.
func mix(s string, mask int) string {
	b := []byte(s)
	for i := range b {
		if mask>>i&1 == 1 {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

func noEOT(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 4)
	}
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// sized is a text of k bytes that ends in x.
func sized(k int, x string) string {
	if k < 1 {
		return ""
	}
	return strings.Repeat("lorem ", k/6+1)[:k-1] + x
}

// shaped is a text of about k bytes around x whose blanks and line ends stand where a
// routine that cuts texts into lines may look for them.
func shaped(k int, x string) string {
	if k < 1 {
		k = 1
	}
	long := strings.Repeat("q", k)
	switch sym.Choose(9) {
	case 0:
		return x + long
	case 1:
		return " " + x + long
	case 2:
		return x + long + " "
	case 3:
		return x + strings.Repeat(" ", k)
	case 4:
		return "\n" + x + long
	case 5:
		return x + strings.Repeat("\n", k%400)
	case 6:
		return long + " \n" + x + " " + long + "\n"
	case 7:
		return strings.Repeat("q ", k/2) + x
	}
	return " " + strings.Repeat(" q", k/2) + "\n" + x + long
}
