package h

import (
	"errors"
	"io"
	"io/fs"
	"sort"
	"strings"
	"time"
)

// memFS is a small in-memory file tree with injectable faults.
type memFS struct {
	files []memEntry
}

type memEntry struct {
	path string
	data string
	dir  bool
	// faults: 1 open fails, 2 stat fails, 3 read fails at once, 4 read fails
	// after the first byte, 5 (directories) listing fails; no faults: 6 reads
	// come in small pieces, 7 the size is reported as 0, 8 as too large, 9 the
	// end comes with the last bytes, 10 every other read gives nothing, 11 a
	// symbolic link
	fault int
}

var errFault = errors.New("injected fault")

func (m *memFS) add(path, data string) *memFS {
	m.files = append(m.files, memEntry{path: path, data: data})
	return m
}

func (m *memFS) find(name string) *memEntry {
	for i := range m.files {
		if m.files[i].path == name {
			return &m.files[i]
		}
	}
	return nil
}

func (m *memFS) Open(name string) (fs.File, error) {
	if e := m.find(name); e != nil && !e.dir {
		if e.fault == 1 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: errFault}
		}
		return &memFile{m: m, name: name, e: e}, nil
	}
	isDir := name == "."
	for i := range m.files {
		if m.files[i].path == name && m.files[i].dir || strings.HasPrefix(m.files[i].path, name+"/") {
			isDir = true
		}
	}
	if !isDir {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	e := m.find(name)
	if e == nil {
		e = &memEntry{path: name, dir: true}
	}
	if e.fault == 1 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: errFault}
	}
	return &memFile{m: m, name: name, e: e}, nil
}

type memFile struct {
	m    *memFS
	name string
	e    *memEntry
	off  int
	idle bool
}

func base(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

func (f *memFile) Stat() (fs.FileInfo, error) {
	if f.e.fault == 2 {
		return nil, errFault
	}
	return &memInfo{base(f.name), f.e}, nil
}

func (f *memFile) Read(b []byte) (int, error) {
	if f.e.dir {
		return 0, errFault
	}
	if f.e.fault == 3 || f.e.fault == 4 && f.off > 0 {
		return 0, errFault
	}
	if f.off >= len(f.e.data) {
		return 0, io.EOF
	}
	s := f.e.data[f.off:]
	if f.e.fault == 4 {
		s = s[:1]
	}
	if f.e.fault == 6 && len(s) > 7 {
		s = s[:7]
	}
	if f.e.fault == 10 {
		if f.idle = !f.idle; f.idle {
			return 0, nil
		}
	}
	n := copy(b, s)
	f.off += n
	if f.e.fault == 9 && f.off == len(f.e.data) {
		return n, io.EOF
	}
	return n, nil
}

func (f *memFile) Close() error { return nil }

func (f *memFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.e.fault == 5 {
		return nil, errFault
	}
	prefix := f.name + "/"
	if f.name == "." {
		prefix = ""
	}
	var names []string
	var out []fs.DirEntry
	seen := map[string]bool{}
	for i := range f.m.files {
		rest, ok := strings.CutPrefix(f.m.files[i].path, prefix)
		if !ok || rest == "." || rest == "" {
			continue
		}
		if j := strings.Index(rest, "/"); j >= 0 {
			rest = rest[:j]
		}
		if !seen[rest] {
			seen[rest] = true
			names = append(names, rest)
		}
	}
	sort.Strings(names)
	for _, nm := range names {
		e := f.m.find(prefix + nm)
		if e == nil {
			e = &memEntry{path: prefix + nm, dir: true}
		}
		d := fs.FileInfoToDirEntry(&memInfo{nm, e})
		if e.fault == 11 {
			d = &memLink{d}
		}
		out = append(out, d)
	}
	return out, nil
}

type memInfo struct {
	name string
	e    *memEntry
}

func (i *memInfo) Name() string { return i.name }
func (i *memInfo) Size() int64 {
	switch i.e.fault {
	case 7:
		return 0
	case 8:
		return int64(len(i.e.data)) + 100
	}
	return int64(len(i.e.data))
}
func (i *memInfo) Mode() fs.FileMode {
	if i.e.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i *memInfo) ModTime() time.Time { return time.Unix(1700000000, 0).UTC() }
func (i *memInfo) IsDir() bool        { return i.e.dir }
func (i *memInfo) Sys() any           { return nil }

// memLink is a directory entry that is a symbolic link to a file.
type memLink struct{ fs.DirEntry }

func (l *memLink) Type() fs.FileMode { return fs.ModeSymlink }
func (l *memLink) IsDir() bool       { return false }

// odd are the ways of a file that are no faults.
var odd = []int{0, 6, 7, 8, 9, 10, 11}

// poText gives a catalogue in one language with the given messages.
func poText(lang, plural string, pairs ...string) string {
	var b strings.Builder
	b.WriteString("msgid \"\"\nmsgstr \"\"\n\"Language: " + lang + "\\n\"\n")
	if plural != "" {
		b.WriteString("\"Plural-Forms: " + plural + "\\n\"\n")
	}
	for i := 0; i+1 < len(pairs); i += 2 {
		b.WriteString("\nmsgid \"" + pairs[i] + "\"\nmsgstr \"" + pairs[i+1] + "\"\n")
	}
	return b.String()
}
