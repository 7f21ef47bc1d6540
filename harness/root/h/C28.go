package h

import (
	stderrors "errors"
	"fmt"
	"io"
	"strings"

	"github.com/youthlin/t/errors"
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

type ownErr struct{ text string }

func (e *ownErr) Error() string { return e.text }

func contains(s, sub string) bool { return strings.Contains(s, sub) }

// c28text is a message without verbs.
func c28text() string {
	s := letters(1)
	if sym.Choose(2) == 1 {
		s += " " + sym.StringIn(1, "a:;é\n") + letters(1)
	}
	switch sym.Choose(3) {
	case 1:
		s += " " + strings.Repeat("long ", 9+sym.Choose(2)*60)
	}
	return s
}

// H_C28_wrap: one to three levels of wrapping, in any mix.
func H_C28_wrap() {
	depth := 1 + sym.Choose(3)
	if sym.Thorough() {
		depth += 1
	}
	var err error
	var causes []error
	var texts []string
	switch sym.Choose(4) {
	case 0:
		err = &ownErr{"own" + letters(1)}
	case 1:
		err = io.EOF
	case 2:
		x := letters(1)
		err = errors.Errorf("made %s", x)
		texts = append(texts, "made "+x)
	case 3:
		cause := &ownErr{"in" + letters(1)}
		err = errors.Errorf("made %w and %v", cause, 7)
		causes = append(causes, cause)
		texts = append(texts, "made "+cause.text+" and 7")
	}
	causes = append(causes, err)
	for i := 0; i < depth; i++ {
		switch sym.Choose(5) {
		case 4: // a message with a cause of its own
			inner := &ownErr{"inner" + letters(1)}
			err = errors.Wrapf(err, "by %w", inner)
			causes = append(causes, inner)
			texts = append(texts, "by "+inner.text)
		case 0:
			m := c28text()
			err = errors.Wrapf(err, m)
			texts = append(texts, m)
		case 1:
			a := sym.StringIn(1, "a%{") + sym.StringIn(1, "sdw!")
			err = errors.Wrapf(err, "a %s b %d", a, 12)
			texts = append(texts, "a "+a+" b 12")
		case 2:
			second := &ownErr{"sec" + letters(1)}
			err = errors.WithSecondaryError(err, second)
			causes = append(causes, second)
		case 3:
			first := &ownErr{"first" + letters(1)}
			err = errors.WithSecondaryError(first, err)
			causes = append(causes, first)
		}
		causes = append(causes, err)
	}
	for _, c := range causes {
		sym.Assert(errors.Is(err, c), "a cause is lost")
		sym.Assert(stderrors.Is(err, c), "a cause is lost")
		texts = append(texts, c.Error())
	}
	text := err.Error()
	sym.ObserveStr("text", text)
	for _, s := range texts {
		sym.Assert(contains(text, s), "a cause's text is missing")
	}
	sym.Assert(!errors.Is(err, errOther), "matches an error it was not built from")
	sym.Assert(!errors.Is(err, io.ErrUnexpectedEOF), "matches an error it was not built from")
}

var errOther = stderrors.New("other")

// H_C28_args: wrapping leaves the caller's arguments alone.
func H_C28_args() {
	back := []any{"p", 1, "q", 2, "r"}
	n := sym.Choose(len(back))
	k := sym.Choose(n + 1)
	args := back[k:n]
	x := letters(1)
	for i := range args {
		if i == 0 {
			args[0] = x
		}
	}
	keep := append([]any(nil), back...)
	cause := &ownErr{"cause"}
	format := "f"
	for range args {
		format += " %v"
	}
	e1 := errors.Wrapf(cause, format, args...)
	e2 := errors.Wrapf(io.EOF, format, args...)
	for i := range back {
		sym.Assert(back[i] == keep[i], "the caller's arguments were changed")
	}
	sym.Assert(errors.Is(e1, cause) && !errors.Is(e1, io.EOF), "first error's cause")
	sym.Assert(errors.Is(e2, io.EOF) && !errors.Is(e2, cause), "second error's cause")
	sym.Assert(e1.Error() != e2.Error(), "texts")
	sym.Assert(contains(e1.Error(), "cause"), "text of the cause")
	if k < n {
		sym.Assert(contains(e1.Error(), "f "+x), "formatted message")
	}
}

// H_C28_is: plain errors and nil.
func H_C28_is() {
	n := []int{1, 9, 30}[sym.Choose(3)]
	a, b := &ownErr{letters(n)}, &ownErr{letters(n)}
	sym.Assert(errors.Is(a, a), "an error matches itself")
	sym.Assert(!errors.Is(a, b), "different errors do not match")
	sym.Assert(!errors.Is(nil, a), "nil matches nothing")
	sym.Assert(errors.Errorf("%s", a.text).Error() == a.text, "Errorf")
	sym.Assert(!errors.Is(errors.Errorf("%v", a), a), "only what is wrapped is a cause")
}

// H_C28_read: failures of reading keep end-of-data recognisable only where
// data ended.
func H_C28_read() {
	ms := []*msg{{str: header2}, {id: "a" + letters(1), str: "b"}}
	img := moImage(ms, false, moOrders[0], 0, false)
	cut := sym.Choose(len(img) - 1) // the last byte only terminates the last string
	_, err := translator.ReadMo(img[:cut])
	sym.Assert(err != nil, "truncated MO file read")
	sym.Assert(sym.Or(errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF)), "truncation is not recognisable")
	sym.Assert(err.Error() != "", "no text")

	bad := append([]byte(nil), img...)
	bad[0] ^= 1 + sym.Byte()&0x7f
	_, err = translator.ReadMo(bad)
	sym.Assert(err != nil, "bad magic accepted")
	sym.Assert(!errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF), "a wrong file looks truncated")

	_, err = translator.ReadPo([]byte("msgid \"a\"\nmsgstr \"b\"\n" + letters(1) + "\n"))
	sym.Assert(err != nil, "malformed PO accepted")
	sym.Assert(!errors.Is(err, io.EOF), "malformed PO text looks like its end")
	f, err := translator.ReadPo([]byte("msgid \"a\"\nmsgstr \"b\"" + []string{"", "\n", "\n\n"}[sym.Choose(3)]))
	sym.Assert(err == nil && f != nil, "the end of a PO file is an error")
}

// H_C28_deep: long chains of wrapping.
func H_C28_deep() {
	n := []int{6, 12, 40}[sym.Choose(3)]
	x := letters(1)
	var err error = &ownErr{"root" + x}
	causes, texts := []error{err}, []string{}
	for i := 0; i < n; i++ {
		switch (i*7 + i/3) % 3 {
		case 0:
			err = errors.Wrapf(err, "level %d %s", i, x)
			texts = append(texts, "level "+itoa(i)+" "+x)
		case 1:
			second := &ownErr{"second" + itoa(i)}
			err = errors.WithSecondaryError(err, second)
			causes = append(causes, second)
		case 2:
			first := &ownErr{"first" + itoa(i)}
			err = errors.WithSecondaryError(first, err)
			causes = append(causes, first)
		}
		causes = append(causes, err)
	}
	text := err.Error()
	for _, c := range causes {
		sym.Assert(errors.Is(err, c), "a cause is lost")
		sym.Assert(contains(text, c.Error()), "a cause's text is missing")
	}
	for _, s := range texts {
		sym.Assert(contains(text, s), "a cause's text is missing")
	}
	sym.Assert(!errors.Is(err, errOther), "matches an error it was not built from")
}

// H_C28_words: texts of the code in messages and causes.
func H_C28_words() {
	w := sym.Word("", "any", 60)
	cause := &ownErr{w + "c"}
	var err error = cause
	switch sym.Choose(3) {
	case 0:
		err = errors.Wrapf(err, "%s", w+"m")
	case 1:
		err = errors.Wrapf(errors.Wrapf(err, "%s", w+"m"), "outer %v", w)
	case 2:
		err = errors.WithSecondaryError(errors.Wrapf(cause, "%s", w+"m"), errOther)
		sym.Assert(errors.Is(err, errOther), "a cause is lost")
	}
	sym.Assert(errors.Is(err, cause), "a cause is lost")
	sym.Assert(contains(err.Error(), w+"c"), "a cause's text is missing")
	sym.Assert(contains(err.Error(), w+"m"), "the message is missing")
	sym.Assert(!errors.Is(err, io.EOF), "matches an error it was not built from")
	sym.Assert(errors.Errorf("%s", w).Error() == w, "Errorf")
}

// H_C28_size: texts and chains of the lengths the code mentions.
func H_C28_size() {
	x := letters(1)
	if sym.Choose(2) == 0 {
		k := sym.Size("", 1, 5000)
		long := sized(k, x)
		cause := &ownErr{long + "c"}
		err := errors.Wrapf(cause, "%s", long+"m")
		sym.Assert(contains(err.Error(), long+"c") && contains(err.Error(), long+"m"), "a text is missing")
		err = errors.WithSecondaryError(err, errors.Wrapf(errOther, "second %s", long))
		sym.Assert(contains(err.Error(), long+"c") && contains(err.Error(), "second "+long) && contains(err.Error(), "other"), "a text is missing")
		sym.Assert(errors.Is(err, cause) && errors.Is(err, errOther), "a cause is lost")
		sym.Assert(errors.Errorf("%s %s", long, x).Error() == long+" "+x, "Errorf")
		return
	}
	k := sym.Size("", 1, 70)
	cause := &ownErr{"c" + x}
	var err error = cause
	for i := 0; i < k; i++ {
		if i%2 == 0 {
			err = errors.Wrapf(err, "w%d", i)
		} else {
			err = errors.WithSecondaryError(&ownErr{"f" + itoa(i)}, err)
		}
	}
	sym.Assert(errors.Is(err, cause), "a cause is lost")
	sym.Assert(contains(err.Error(), "c"+x) && contains(err.Error(), "w0"), "a text is missing")
	sym.Assert(!errors.Is(err, errOther), "matches an error it was not built from")
}

// passErr adds nothing to the text of the error it wraps.
type passErr struct {
	inner error
	id    int
}

func (p *passErr) Error() string { return p.inner.Error() }
func (p *passErr) Unwrap() error { return p.inner }

// joinErr has two causes of its own.
type joinErr struct {
	text string
	errs []error
}

func (j *joinErr) Error() string   { return j.text }
func (j *joinErr) Unwrap() []error { return j.errs }

// valueErr is compared by value.
type valueErr struct{ text string }

func (v valueErr) Error() string { return v.text }

// answersErr says itself what it is.
type answersErr struct {
	text string
	is   error
}

func (a *answersErr) Error() string        { return a.text }
func (a *answersErr) Is(target error) bool { return target == a.is }

// H_C28_foreign: causes of all kinds of making, wrapped again.
func H_C28_foreign() {
	x := letters(1)
	root := &ownErr{"root" + x}
	var err error
	var causes []error
	switch sym.Choose(10) {
	case 0:
		err = &passErr{inner: root}
		causes = []error{root}
	case 1:
		inner := &passErr{inner: root}
		err = &passErr{inner: inner, id: 1}
		causes = []error{inner, root}
	case 2:
		err = &joinErr{"joined" + x, []error{root, io.EOF}}
		causes = []error{root, io.EOF}
	case 3:
		err = valueErr{"value" + x}
		causes = []error{valueErr{"value" + x}}
	case 4:
		err = &answersErr{"answers" + x, io.EOF}
		causes = []error{io.EOF}
	case 5:
		err = fmt.Errorf("%w", root)
		causes = []error{root}
	case 6:
		err = stderrors.Join(root, io.EOF)
		causes = []error{root, io.EOF}
	case 7:
		err = &ownErr{""} // no text
	case 8:
		err = errors.WithSecondaryError(root, root) // the same twice
		causes = []error{root}
	case 9:
		inner := errors.Wrapf(root, "same")
		err = fmt.Errorf("%w", inner)
		causes = []error{inner, root}
	}
	causes = append(causes, err)
	first := err
	texts := []string{err.Error()}
	for i, n := 0, 1+sym.Choose(3); i < n; i++ {
		switch sym.Choose(4) {
		case 0:
			err = errors.Wrapf(err, "level %d", i)
			texts = append(texts, "level "+itoa(i))
		case 1:
			second := &ownErr{first.Error()} // says the same as the first
			err = errors.WithSecondaryError(err, second)
			causes = append(causes, second)
		case 2:
			outer := &passErr{inner: err, id: i}
			err = errors.WithSecondaryError(outer, io.ErrNoProgress)
			causes = append(causes, outer, io.ErrNoProgress)
			texts = append(texts, io.ErrNoProgress.Error())
		case 3:
			err = errors.Wrapf(err, "") // no message
		}
		causes = append(causes, err)
	}
	for _, c := range causes {
		sym.Assert(errors.Is(err, c), "a cause is lost")
		sym.Assert(stderrors.Is(err, c), "a cause is lost")
	}
	text := err.Error()
	for _, s := range texts {
		sym.Assert(contains(text, s), "a cause's text is missing")
	}
	sym.Assert(!errors.Is(err, errOther), "matches an error it was not built from")
	sym.Assert(!errors.Is(err, &ownErr{root.text}), "matches an error it was not built from")
}
