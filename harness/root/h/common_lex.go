package h

// lex splits text by the longest-match rule; ok is false on a character outside the language.
func lex(s string) (toks []string, ok bool) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
			continue
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
			continue
		}
		d := byte(0)
		if i+1 < len(s) {
			d = s[i+1]
		}
		n := 0
		switch c {
		case 'n', '(', ')', '?', ':', '*', '/', '%', '^', '~':
			n = 1
		case '+', '-', '&', '|':
			n = 1
			if d == c {
				n = 2
			}
		case '<', '>':
			n = 1
			if d == c || d == '=' {
				n = 2
			}
		case '!':
			n = 1
			if d == '=' {
				n = 2
			}
		case '=':
			if d == '=' {
				n = 2
			}
		}
		if n == 0 {
			return toks, false
		}
		toks = append(toks, s[i:i+n])
		i += n
	}
	return toks, true
}
