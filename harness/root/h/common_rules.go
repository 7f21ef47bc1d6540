package h

type rule struct {
	toks string // tokens separated by one blank
	form func(n int64) int64
}

// The rules of the GNU gettext manual ("Plural forms"), with the form each one
// assigns, written independently of the expression text.
var rules = []rule{
	{"0", func(n int64) int64 { return 0 }},
	{"n != 1", func(n int64) int64 {
		if n == 1 {
			return 0
		}
		return 1
	}},
	{"n > 1", func(n int64) int64 {
		if n <= 1 {
			return 0
		}
		return 1
	}},
	// Latvian
	{"n % 10 == 1 && n % 100 != 11 ? 0 : n != 0 ? 1 : 2", func(n int64) int64 {
		switch {
		case n%10 == 1 && n%100 != 11:
			return 0
		case n != 0:
			return 1
		}
		return 2
	}},
	// Irish
	{"n == 1 ? 0 : n == 2 ? 1 : 2", func(n int64) int64 {
		switch n {
		case 1:
			return 0
		case 2:
			return 1
		}
		return 2
	}},
	// Romanian
	{"n == 1 ? 0 : ( n == 0 || ( n % 100 > 0 && n % 100 < 20 ) ) ? 1 : 2", func(n int64) int64 {
		r := n % 100
		switch {
		case n == 1:
			return 0
		case n == 0 || r >= 1 && r <= 19:
			return 1
		}
		return 2
	}},
	// Lithuanian
	{"n % 10 == 1 && n % 100 != 11 ? 0 : n % 10 >= 2 && ( n % 100 < 10 || n % 100 >= 20 ) ? 1 : 2", func(n int64) int64 {
		d, r := n%10, n%100
		switch {
		case d == 1 && r != 11:
			return 0
		case d >= 2 && !(r >= 10 && r <= 19):
			return 1
		}
		return 2
	}},
	// Russian and others
	{"n % 10 == 1 && n % 100 != 11 ? 0 : n % 10 >= 2 && n % 10 <= 4 && ( n % 100 < 10 || n % 100 >= 20 ) ? 1 : 2", func(n int64) int64 {
		d, r := n%10, n%100
		switch {
		case d == 1 && r != 11:
			return 0
		case d >= 2 && d <= 4 && !(r >= 10 && r <= 19):
			return 1
		}
		return 2
	}},
	// Czech, Slovak
	{"( n == 1 ) ? 0 : ( n >= 2 && n <= 4 ) ? 1 : 2", func(n int64) int64 {
		switch {
		case n == 1:
			return 0
		case n == 2 || n == 3 || n == 4:
			return 1
		}
		return 2
	}},
	// Polish
	{"n == 1 ? 0 : n % 10 >= 2 && n % 10 <= 4 && ( n % 100 < 10 || n % 100 >= 20 ) ? 1 : 2", func(n int64) int64 {
		d, r := n%10, n%100
		switch {
		case n == 1:
			return 0
		case d >= 2 && d <= 4 && !(r >= 10 && r <= 19):
			return 1
		}
		return 2
	}},
	// Slovenian
	{"n % 100 == 1 ? 0 : n % 100 == 2 ? 1 : n % 100 == 3 || n % 100 == 4 ? 2 : 3", func(n int64) int64 {
		switch n % 100 {
		case 1:
			return 0
		case 2:
			return 1
		case 3, 4:
			return 2
		}
		return 3
	}},
	// Arabic
	{"n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 : n % 100 >= 3 && n % 100 <= 10 ? 3 : n % 100 >= 11 ? 4 : 5", func(n int64) int64 {
		r := n % 100
		switch {
		case n == 0 || n == 1 || n == 2:
			return n
		case r >= 3 && r <= 10:
			return 3
		case r >= 11:
			return 4
		}
		return 5
	}},
}
