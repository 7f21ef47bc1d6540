package h

import "github.com/youthlin/t/zzverif/sym"

func b2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

// letters is a text that needs no quoting.
func letters(n int) string {
	s := sym.String(n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] >= 'a')
		sym.Assume(s[i] <= 'z')
	}
	return s
}

func digit(lo byte) string {
	b := sym.Byte()
	sym.Assume(b >= lo)
	sym.Assume(b <= '9')
	return string([]byte{b})
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	s := ""
	for n >= 10 {
		s = string([]byte{'0' + byte(n%10)}) + s
		n /= 10
	}
	return string([]byte{'0' + byte(n)}) + s
}
