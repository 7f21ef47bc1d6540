package models

import (
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"

	"github.com/youthlin/t/zzverif/sym"
)

// The virtual file system behind the os functions.

type handle struct {
	name   string
	data   string
	dir    bool
	off    int
	write  bool
	closed bool
	listed int
}

var handles = map[*os.File]*handle{}

var std = [3]*os.File{1: os.Stdout, 2: os.Stderr}

// Redirect is sym.Redirect: the original standard files, whoever holds them,
// write to a file.
func Redirect(fd int, name string) {
	sym.XWrite(clean(sym.Path(name)), "")
	handles[std[fd]] = &handle{name: sym.Path(name), write: true}
}

func NewFile(fd uintptr, name string) *os.File { return new(os.File) }

func clean(name string) string {
	for i := 0; i+1 < len(name); i++ {
		if name[i] != '/' {
			continue
		}
		if name[i+1] == '/' {
			name = name[:i] + name[i+1:]
			i--
		} else if name[i+1] == '.' && (i+2 == len(name) || name[i+2] == '/') {
			name = name[:i] + name[i+2:]
			i--
		}
	}
	for len(name) > 1 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	for len(name) > 2 && name[:2] == "./" {
		name = name[2:]
	}
	return name
}

type info struct {
	name string
	size int
	dir  bool
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return int64(i.size) }
func (i *info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.dir }
func (i *info) Sys() any           { return nil }

func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

func dirOf(p string) string {
	n := len(p) - len(base(p))
	if n > 1 {
		n--
	}
	if n == 0 {
		return "."
	}
	return p[:n]
}

func pathErr(op, name string, e syscall.Errno) error {
	return &fs.PathError{Op: op, Path: name, Err: e}
}

func Stat(name string) (fs.FileInfo, error) {
	d, k := sym.XRead(clean(name))
	if k == 0 {
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	return &info{base(clean(name)), len(d), k == 2}, nil
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	d, k := sym.XRead(clean(name))
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case k == 0 && flag&os.O_CREATE == 0:
		return nil, pathErr("open", name, syscall.ENOENT)
	case k == 2 && wr:
		return nil, pathErr("open", name, syscall.EISDIR)
	case k != 2 && len(name) > 0 && name[len(name)-1] == '/':
		if k == 0 {
			return nil, pathErr("open", name, syscall.EISDIR)
		}
		return nil, pathErr("open", name, syscall.ENOTDIR)
	case k == 1 && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, pathErr("open", name, syscall.EEXIST)
	}
	if k == 0 {
		if _, pk := sym.XRead(dirOf(clean(name))); pk != 2 && dirOf(clean(name)) != "." {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
	}
	if wr && (k == 0 || flag&os.O_TRUNC != 0) {
		d = ""
		sym.XWrite(clean(name), "")
	}
	h := &handle{name: name, data: d, dir: k == 2, write: wr}
	if flag&os.O_APPEND != 0 {
		h.off = len(d)
	}
	f := new(os.File)
	handles[f] = h
	return f, nil
}

func ReadFile(name string) ([]byte, error) {
	d, k := sym.XRead(clean(name))
	switch k {
	case 0:
		return nil, pathErr("open", name, syscall.ENOENT)
	case 2:
		return nil, pathErr("read", name, syscall.EISDIR)
	}
	return []byte(d), nil
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	if _, k := sym.XRead(clean(name)); k == 2 {
		return pathErr("open", name, syscall.EISDIR)
	}
	sym.XWrite(clean(name), string(data))
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error { sym.XMkdir(clean(name)); return nil }

func Remove(name string) error {
	if _, k := sym.XRead(clean(name)); k == 0 {
		return pathErr("remove", name, syscall.ENOENT)
	}
	sym.XRemove(clean(name))
	return nil
}

func Exit(code int) { sym.XExit(code) }

func get1(op string, f *os.File) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return &handle{write: true}, nil
	}
	if h.closed {
		return nil, &fs.PathError{Op: op, Path: h.name, Err: os.ErrClosed}
	}
	return h, nil
}

func FileRead(f *os.File, b []byte) (int, error) {
	h, err := get1("read", f)
	if err != nil {
		return 0, err
	}
	if h.dir {
		return 0, pathErr("read", h.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(h.data) {
		return 0, io.EOF
	}
	n := copy(b, h.data[h.off:])
	h.off += n
	return n, nil
}

func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := get1("read", f)
	if err != nil {
		return 0, err
	}
	if off >= int64(len(h.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func FileWrite(f *os.File, b []byte) (int, error) {
	h, err := get1("write", f)
	if err != nil {
		return 0, err
	}
	if !h.write {
		return 0, pathErr("write", h.name, syscall.EBADF)
	}
	if h.name == "" {
		return len(b), nil
	}
	d, _ := sym.XRead(clean(h.name))
	end := h.off + len(b)
	rest := ""
	if end < len(d) {
		rest = d[end:]
	}
	sym.XWrite(clean(h.name), d[:h.off]+string(b)+rest)
	h.off = end
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := FileWrite(f, b)
	return int64(n), err
}

func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	h, err := get1("read", f)
	if err != nil {
		return 0, err
	}
	n, err := w.Write([]byte(h.data[h.off:]))
	h.off += n
	return int64(n), err
}

func FileClose(f *os.File) error {
	h, err := get1("close", f)
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

func FileSync(f *os.File) error { return nil }

func FileStat(f *os.File) (fs.FileInfo, error) {
	h, err := get1("stat", f)
	if err != nil {
		return nil, err
	}
	return &info{base(clean(h.name)), len(h.data), h.dir}, nil
}

func FileName(f *os.File) string {
	if h := handles[f]; h != nil {
		return h.name
	}
	return "std"
}

func entries(name string) []fs.FileInfo {
	var r []fs.FileInfo
	for _, n := range sym.XList(clean(name)) {
		d, k := sym.XRead(clean(name) + "/" + n)
		r = append(r, &info{n, len(d), k == 2})
	}
	return r
}

func list(f *os.File, n int) ([]fs.FileInfo, error) {
	h, err := get1("readdir", f)
	if err != nil {
		return nil, err
	}
	if !h.dir {
		return nil, pathErr("readdirent", h.name, syscall.ENOTDIR)
	}
	es := entries(h.name)[h.listed:]
	if n > 0 {
		if len(es) == 0 {
			return nil, io.EOF
		}
		if n < len(es) {
			es = es[:n]
		}
	}
	h.listed += len(es)
	return es, nil
}

func FileReaddir(f *os.File, n int) ([]fs.FileInfo, error) { return list(f, n) }

func FileReadDir(f *os.File, n int) ([]fs.DirEntry, error) {
	es, err := list(f, n)
	var r []fs.DirEntry
	for _, e := range es {
		r = append(r, fs.FileInfoToDirEntry(e))
	}
	return r, err
}

func FileReaddirnames(f *os.File, n int) ([]string, error) {
	es, err := list(f, n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	_, k := sym.XRead(clean(name))
	switch k {
	case 0:
		return nil, pathErr("open", name, syscall.ENOENT)
	case 1:
		return nil, pathErr("readdirent", name, syscall.ENOTDIR)
	}
	var r []fs.DirEntry
	for _, e := range entries(name) {
		r = append(r, fs.FileInfoToDirEntry(e))
	}
	return r, nil
}

// Now is a fixed instant.
func Now() time.Time { return time.Date(2024, 2, 3, 4, 5, 6, 0, time.UTC) }
