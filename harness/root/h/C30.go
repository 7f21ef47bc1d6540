package h

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"syscall"

	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

// badWriter takes limit bytes, then fails: once, or from then on.
type badWriter struct {
	got    []byte
	limit  int
	once   bool
	failed bool
	all    bool // fails although it has taken everything
	err    error
}

// c30errs are errors of writers.
var c30errs = []error{errors.New("no space left"), io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, &fs.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}}

func (w *badWriter) Write(b []byte) (int, error) {
	if w.failed && w.once {
		w.got = append(w.got, b...)
		return len(b), nil
	}
	if w.failed {
		return 0, w.err
	}
	if w.all && len(w.got)+len(b) >= w.limit {
		w.failed = true
		w.got = append(w.got, b...)
		return len(b), w.err
	}
	if len(w.got)+len(b) > w.limit {
		n := w.limit - len(w.got)
		w.failed = true
		w.got = append(w.got, b[:n]...)
		return n, w.err
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

func c30save(f *translator.File, kind int, w io.Writer) error {
	switch kind {
	case 0:
		return f.SaveAsPo(w)
	case 1:
		return f.SaveAsPot(w)
	}
	return f.SaveAsMo(w)
}

// c30check saves to a writer that fails after any number of bytes.
func c30check(f *translator.File, step int) {
	kind := sym.Choose(3)
	var full bytes.Buffer
	sym.Assert(c30save(f, kind, &full) == nil, "saving to memory fails")
	want := full.Bytes()
	for limit := 0; ; limit += step {
		if limit > len(want)+1 {
			limit = len(want) + 1
		}
		if limit <= len(want) && sym.Choose(2) == 0 {
			continue
		}
		w := &badWriter{limit: limit, err: c30errs[sym.Choose(len(c30errs))]}
		switch sym.Choose(3) {
		case 1:
			w.once = true
		case 2:
			w.all = true
		}
		err := c30save(f, kind, w)
		if limit > len(want) || limit == len(want) && !w.all {
			sym.Assert(err == nil, "an error without reason")
			sym.Assert(string(w.got) == string(want), "not everything was written")
		} else if w.failed {
			sym.Assert(err != nil, "a write error is not reported")
			sym.Assert(errors.Is(err, w.err), "another error than the writer's")
			if !w.once {
				n := len(w.got)
				sym.Assert(n <= len(want), "more than everything was written")
				if n <= len(want) {
					sym.Assert(string(w.got) == string(want[:n]), "what was written before the error is not a part of the output")
				}
			}
		}
		break
	}
	var again bytes.Buffer
	sym.Assert(c30save(f, kind, &again) == nil, "saving again fails")
	sym.Assert(again.String() == string(want), "a failed save has changed the catalogue")
	sym.ObserveStr("out", again.String())
}

// H_C30_small: a few messages, failing after every number of bytes.
func H_C30_small() {
	x := letters(1)
	ms := []*msg{{str: "Language: fr\n"}, {id: "m" + x, str: x + "\n\"", cmts: []string{"#: a.go:1"}}, {ctx: "c", id: "n", plural: true, id2: "ns", strN: []string{x, ""}}}
	c30check(fileOf(ms[sym.Choose(2):]), 1)
}

// H_C30_empty: a catalogue without messages.
func H_C30_empty() {
	c30check(new(translator.File), 1)
}

// H_C30_large: a catalogue larger than common buffers (4096 bytes, thorough also 65536).
func H_C30_large() {
	x := letters(1)
	ms := []*msg{{str: "Language: fr\n"}}
	n, size := 9, 1000
	if sym.Thorough() && sym.Choose(2) == 1 {
		n, size = 40, 3500
	}
	for i := 0; i < n; i++ {
		s := make([]byte, size)
		for j := range s {
			s[j] = 'a' + byte((i+j)%26)
			if j%70 == 69 {
				s[j] = '\n'
			}
		}
		ms = append(ms, &msg{id: "m" + itoa(i) + x, str: string(s)})
	}
	c30check(fileOf(ms), []int{997, 1024}[sym.Choose(2)])
}

// wipeWriter overwrites what it was given.
type wipeWriter struct{ got []byte }

func (w *wipeWriter) Write(b []byte) (int, error) {
	w.got = append(w.got, b...)
	for i := range b {
		b[i] = '#'
	}
	return len(b), nil
}

// H_C30_wipe: the bytes given to the writer are not needed afterwards.
func H_C30_wipe() {
	x := letters(1)
	ms := []*msg{{str: "Language: fr\n"}, {id: "m" + x, str: x + "long"}, {id: "n", str: "t" + x}}
	f := fileOf(ms)
	kind := sym.Choose(3)
	var full bytes.Buffer
	c30save(f, kind, &full)
	w := new(wipeWriter)
	sym.Assert(c30save(f, kind, w) == nil, "saving fails")
	sym.Assert(string(w.got) == full.String(), "the output depends on the writer")
	withComments = true
	sameMessages(f, ms)
	var again bytes.Buffer
	c30save(f, kind, &again)
	sym.Assert(again.String() == full.String(), "saving has changed the catalogue")
}

// shortWriter takes one byte less than it is given, now and then, and says so
// without an error.
type shortWriter struct {
	got []byte
	at  int
}

func (w *shortWriter) Write(b []byte) (int, error) {
	n := len(b)
	if w.at--; w.at == 0 && n > 0 {
		n--
	}
	w.got = append(w.got, b[:n]...)
	return n, nil
}

// H_C30_short: a writer that takes less than it was given.
func H_C30_short() {
	x := letters(1)
	ms := []*msg{{str: "Language: fr\n"}, {id: "m" + x, str: x + "long"}, {id: "n", str: "t" + x}}
	f := fileOf(ms)
	kind := sym.Choose(3)
	var full bytes.Buffer
	c30save(f, kind, &full)
	w := &shortWriter{at: 1 + sym.Choose(3)}
	err := c30save(f, kind, w)
	sym.Assert(sym.Or(err != nil, string(w.got) == full.String()), "an incomplete output is no error")
	var again bytes.Buffer
	sym.Assert(c30save(f, kind, &again) == nil, "saving again fails")
	sym.Assert(again.String() == full.String(), "saving has changed the catalogue")
}
