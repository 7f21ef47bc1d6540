package h

import (
	"strings"

	"github.com/youthlin/t/cmd/xtemplate/internal"
	"github.com/youthlin/t/zzverif/sym"
)

// number reads a decimal integer that fits 64 bits.
func number(s string) (int, bool) {
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return 0, false
	}
	v := uint64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		d := uint64(s[i] - '0')
		if v > (1<<63-d)/10 {
			return 0, false
		}
		v = v*10 + d
	}
	if neg {
		return int(-v), v <= 1<<63
	}
	return int(v), v < 1<<63
}

func fields(s string, sep byte) []string {
	var out []string
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] == sep {
			out = append(out, s[from:i])
			from = i + 1
		}
	}
	return append(out, s[from:])
}

// spec is what a keyword specification means.
func spec(s string) (kws []internal.Keyword, ok bool) {
	for _, item := range fields(s, ';') {
		parts := fields(item, ':')
		k := internal.Keyword{Name: strings.TrimSpace(parts[0]), MsgID: 1}
		if k.Name == "" || len(parts) > 2 {
			return nil, false
		}
		if len(parts) == 2 {
			pos := fields(parts[1], ',')
			for i := range pos {
				pos[i] = strings.TrimSpace(pos[i])
			}
			if ctx, is := strings.CutSuffix(pos[0], "c"); is && len(pos) > 1 {
				if k.MsgCtxt, ok = number(ctx); !ok {
					return nil, false
				}
				pos = pos[1:]
			} else if len(pos) == 3 {
				return nil, false
			}
			if len(pos) > 2 {
				return nil, false
			}
			if k.MsgID, ok = number(pos[0]); !ok {
				return nil, false
			}
			if len(pos) == 2 {
				if k.MsgID2, ok = number(pos[1]); !ok {
					return nil, false
				}
			}
		}
		kws = append(kws, k)
	}
	return kws, true
}

func c25check(s string) {
	want, ok := spec(s)
	got, err := internal.ParseKeywords(s)
	sym.ObserveBool("ok", err == nil)
	if !ok {
		sym.Assert(err != nil, "bad specification accepted")
		sym.Assert(len(got) == 0, "bad specification gives keywords")
		return
	}
	sym.Assert(err == nil, "good specification rejected")
	sameKeywords(got, want)
}

func sameKeywords(got, want []internal.Keyword) {
	sym.Assert(len(got) == len(want), "number of keywords")
	for i, w := range want {
		if i < len(got) {
			sym.Assert(got[i].Name == w.Name, "keyword name")
			sym.Assert(got[i].MsgCtxt == w.MsgCtxt, "context position")
			sym.Assert(got[i].MsgID == w.MsgID, "id position")
			sym.Assert(got[i].MsgID2 == w.MsgID2, "plural position")
		}
	}
}

// H_C25_bytes: any short text.
func H_C25_bytes() {
	c25check(sym.String(sym.Choose(3 + b2int(sym.Thorough()))))
}

// H_C25_alphabet: texts over the characters that matter.
func H_C25_alphabet() {
	max := 4
	if sym.Thorough() {
		max = 6
	}
	c25check(sym.StringIn(1+sym.Choose(max), ";:,c 1T"))
}

// H_C25_after: the same after the start of a keyword, and around one.
func H_C25_after() {
	k := 3
	if sym.Thorough() {
		k = 4
	}
	s := sym.StringIn(1+sym.Choose(k), ";:,c 2-%")
	switch sym.Choose(5) {
	case 0:
		c25check("X:" + s)
	case 1:
		c25check("X:1c" + s)
	case 2:
		c25check("X:1c,2" + s)
	case 3:
		c25check("X:1" + s + "3")
	case 4:
		c25check("X:1c,2,3" + s + "N:1,2")
	}
}

// H_C25_edit: one byte of a good specification replaced, removed or inserted.
func H_C25_edit() {
	s := []string{"T;X:1c,2", "XN:1c,2,3", "N:1,2;T:1"}[sym.Choose(3)]
	at := sym.Choose(len(s) + 1)
	b := sym.String(1)
	switch sym.Choose(3) {
	case 0:
		c25check(s[:at] + b + s[at:])
	case 1:
		if at < len(s) {
			c25check(s[:at] + b + s[at+1:])
		}
	case 2:
		if at < len(s) {
			c25check(s[:at] + s[at+1:])
		}
	}
}

// H_C25_good: well-formed specifications are returned in order, exactly.
func H_C25_good() {
	var want []internal.Keyword
	text := ""
	n := 1 + sym.Choose(2)
	if sym.Thorough() {
		n = 1 + sym.Choose(3)
	}
	sp := func() string { return []string{"", " "}[sym.Choose(2)] }
	blank := sp()
	num := func() (string, int) {
		s := digit('0')
		v := int(s[0] - '0')
		if sym.Thorough() && sym.Choose(2) == 1 {
			t := digit('0')
			return s + t, v*10 + int(t[0]-'0')
		}
		return s, v
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			text += blank + ";" + blank
		}
		k := internal.Keyword{Name: letters(1 + sym.Choose(2)), MsgID: 1}
		text += k.Name
		shape := sym.Choose(5)
		if shape > 0 {
			text += ":" + blank
		}
		if shape >= 3 {
			s, v := num()
			k.MsgCtxt = v
			text += s + "c" + blank + "," + blank
		}
		if shape > 0 {
			s, v := num()
			k.MsgID = v
			text += s + blank
		}
		if shape == 2 || shape == 4 {
			s, v := num()
			k.MsgID2 = v
			text += "," + blank + s
		}
		want = append(want, k)
	}
	got, err := internal.ParseKeywords(text)
	sym.Assert(err == nil, "good specification rejected")
	sameKeywords(got, want)
}

// H_C25_big: numbers around the largest position.
func H_C25_big() {
	n := []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "0", "-1", "+1", "01", "1_0", "0x1", "1.0", "1e1", "٣"}[sym.Choose(14)]
	d := sym.StringIn(1, "0189")
	if len(n) > 8 {
		n = n[:len(n)-1] + d
	}
	c25check([]string{"T:", "N:1,", "X:1c,", "XN:1c,2,"}[sym.Choose(4)] + n)
	c25check("X:" + n + "c,2")
	c25check("X:" + n + "c,2,3")
}

// H_C25_many: many keywords, long names and numbers.
func H_C25_many() {
	n := []int{6, 12, 30}[sym.Choose(3)]
	x := sym.StringIn(1, " 1c,:;-")
	at := []int{0, 5, n - 1}[sym.Choose(3)]
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ";"
		}
		s += strings.Repeat("name", 1+i%7) + string([]byte{'a' + byte(i%26)})
		switch i % 5 {
		case 1:
			s += ":" + strings.Repeat("1", 1+i%18)
		case 2:
			s += " : 1c , 2 "
		case 3:
			s += ":1c,12,123"
		case 4:
			s += ":4,3"
		}
		if i == at {
			s += x
		}
	}
	c25check(s)
}

// H_C25_size: names, positions and keyword lists of the sizes the code mentions.
func H_C25_size() {
	x := sym.StringIn(1, "a1 :;,c")
	switch sym.Choose(3) {
	case 0:
		k := sym.Size("", 1, 3000)
		c25check(strings.Repeat("n", k-1) + x + ":1c,2")
	case 1:
		k := sym.Size("", 0, 1<<40)
		n := itoa(k)
		c25check("T:" + n + x)
		c25check("N:" + n + "," + x)
		c25check("N:" + x + "," + n)
		c25check("XN:" + n + "c," + n + "," + n + x)
		c25check("T:-" + n)
	case 2:
		k := sym.Size("", 1, 300)
		s := "T"
		for i := 1; i < k; i++ {
			s += ";K" + itoa(i) + ":" + itoa(i)
		}
		c25check(s + ";" + x)
	}
}

// H_C25_words: texts of the code as names.
func H_C25_words() {
	w := sym.Word("", "any", 80)
	x := digit('0')
	c25check(w)
	c25check(w + ":" + x)
	c25check("T:" + w + x)
	c25check("T:1c," + x + ";" + w + ":2," + x)
	c25check("T:" + x + w)
}
