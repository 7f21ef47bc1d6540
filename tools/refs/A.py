# behaviour-preserving variant A: newer stdlib, no reflection, iterators
import re
R='/repo/'
def rd(p): return open(R+p).read()
def wr(p,s): open(R+p,'w').write(s)
def sub(p,*prs):
    s=rd(p)
    for a,b in prs:
        assert a in s,(p,a)
        s=s.replace(a,b,1)
    wr(p,s)
# mo.go
s=rd('translator/mo.go')
i=s.index('// ReadMo read mo'); j=s.index('// inFile')
s=s[:i]+'''// cursor walks over the bytes of an MO file
type cursor struct {
	data []byte
	bo   binary.ByteOrder
	pos  uint64
}

func (c *cursor) take(n uint64) ([]byte, error) {
	if n == 0 {
		return nil, nil
	}
	if c.pos >= uint64(len(c.data)) {
		return nil, io.EOF
	}
	rest := c.data[c.pos:]
	if uint64(len(rest)) < n {
		return nil, io.ErrUnexpectedEOF
	}
	c.pos += n
	return rest[:n], nil
}

func moErr(err error, format string, args ...any) error {
	if err == nil {
		return errors.WithSecondaryError(errReadMo, errors.Errorf(format, args...))
	}
	return errors.WithSecondaryError(errReadMo, errors.Wrapf(err, format, args...))
}

func (c *cursor) table(name string, at, n uint32) ([]lenOff, error) {
	c.pos = uint64(at)
	var list []lenOff
	for i := range n {
		b, err := c.take(8)
		if err != nil {
			return nil, moErr(err, "failed to read %s[%d] length & offset", name, i)
		}
		list = append(list, lenOff{Length: c.bo.Uint32(b), OffSet: c.bo.Uint32(b[4:])})
	}
	return list, nil
}

func (c *cursor) text(name string, i int, lo lenOff) (string, error) {
	if !inFile(c.data, lo) {
		return "", moErr(io.ErrUnexpectedEOF, "%s[%d] is outside the file", name, i)
	}
	return string(c.data[lo.OffSet:][:lo.Length]), nil
}

// ReadMo read mo from []byte content
func ReadMo(content []byte) (*File, error) {
	c := &cursor{data: content, bo: binary.LittleEndian}
	b, err := c.take(4)
	if err != nil {
		return nil, moErr(err, "failed to read magic number")
	}
	if magic := c.bo.Uint32(b); magic == moMagicBig {
		c.bo = binary.BigEndian
	} else if magic != moMagic {
		return nil, moErr(nil, "invalid magic number: %v", magic)
	}
	b, err = c.take(24)
	if err != nil {
		return nil, moErr(err, "failed to read mo header")
	}
	if v := c.bo.Uint16(b); v > 1 {
		return nil, moErr(nil, "unsopported major version: %v", v)
	}
	if v := c.bo.Uint16(b[2:]); v > 1 {
		return nil, moErr(nil, "unsopported minor version: %v", v)
	}
	n := c.bo.Uint32(b[4:])
	ids, err := c.table("msg_id", c.bo.Uint32(b[8:]), n)
	if err != nil {
		return nil, err
	}
	strs, err := c.table("msg_str", c.bo.Uint32(b[12:]), n)
	if err != nil {
		return nil, err
	}
	file := &File{}
	for i, lo := range ids {
		id, err := c.text("msg_id", i, lo)
		if err != nil {
			return nil, err
		}
		str, err := c.text("msg_str", i, strs[i])
		if err != nil {
			return nil, err
		}
		file.AddEntry(moEntry(id, str))
	}
	return file, nil
}

func moEntry(id, str string) *Entry {
	e := &Entry{MsgID: id, MsgStr: str}
	if one, many, ok := strings.Cut(id, nul); ok {
		e.MsgID, e.MsgID2, e.IsPlural = one, many, true
		e.MsgStr, e.MsgStrN = "", strings.Split(str, nul)
	}
	if ctx, id, ok := strings.Cut(e.MsgID, eot); ok {
		e.MsgCtxt, e.MsgID = ctx, id
	}
	return e
}

'''+s[j:]
i=s.index('func (f *File) SaveAsMo'); j=s.index('func moMsgID(')
s=s[:i]+'''func (f *File) SaveAsMo(w io.Writer) error {
	entries := f.SortedEntry()
	slices.SortFunc(entries, func(a, b *Entry) int { return strings.Compare(moMsgID(a), moMsgID(b)) })
	count := len(entries)
	le := binary.LittleEndian
	var head []byte
	for _, v := range []uint32{moMagic, 0, uint32(count), uint32(offsetO), uint32(offsetO + count*8), 0, 0, uint32(flagLen)} {
		head = le.AppendUint32(head, v)
	}
	head = append(head, flag...)
	var body []byte
	at := offsetO + count*16
	for _, text := range [...]func(*Entry) string{moMsgID, moMsgStr} {
		for _, e := range entries {
			s := text(e)
			head = le.AppendUint32(head, uint32(len(s)))
			head = le.AppendUint32(head, uint32(at+len(body)))
			body = append(append(body, s...), 0)
		}
	}
	_, err := w.Write(slices.Concat(head, body))
	return err
}

'''+s[j:]
s=s.replace('''type header struct {
	Major      uint16 // 主版本号，只能是0或1
	Minor      uint16 // 次版本好，只能是0或1
	IDCount    uint32 // N msgID 数量
	OffsetID   uint32 // O msgID 从哪里开始读取
	OffsetStr  uint32 // T msgStr 的偏移量
	SizeHash   uint32 // S 可忽略 hash 表大小
	OffsetHash uint32 // H 可忽略 hash 表偏移位置
}

''','')
s=re.sub(r'import \(.*?\n\)','import (\n\t"encoding/binary"\n\t"fmt"\n\t"io"\n\t"slices"\n\t"strings"\n\n\t"github.com/youthlin/t/errors"\n)',s,1,re.S)
wr('translator/mo.go',s)
# po.go / pot.go writers
s=rd('translator/po.go')
i=s.index('// SaveAsPo'); j=s.index('var errInvalidEntry')
s=s[:i]+'''// SaveAsPo save as a po file
func (f *File) SaveAsPo(w io.Writer) error {
	return f.save(w, func(out *strings.Builder, entry *Entry) {
		if entry.IsPlural {
			writeString(out, msgidPlural, entry.MsgID2)
		}
		if entry.MsgStr != "" {
			writeString(out, msgstr, entry.MsgStr)
		}
		for i, str := range entry.MsgStrN {
			writeString(out, fmt.Sprintf(msgstrN, i), str)
		}
	})
}

'''+s[j:]
# table driven reader
i=s.index('// readEntry '); j=s.index('func equalsAny')
s=s[:i]+'''// field is one kind of line of an entry
type field struct {
	name, prefix string
	ends         []string // the entry is complete when such a line came before
	anyEnds      bool
}

var fields = []field{
	{name: "msgctxt", prefix: "msgctxt ", anyEnds: true},
	{name: "msgid_plural", prefix: "msgid_plural ", ends: []string{"msgid_plural", "msgstr", "msgstr[]"}},
	{name: "msgid", prefix: "msgid ", ends: []string{"msgid", "msgid_plural", "msgstr", "msgstr[]"}},
	{name: "msgstr[]", prefix: "msgstr[%d] ", ends: []string{"msgstr"}},
	{name: "msgstr", prefix: "msgstr ", ends: []string{"msgstr[]"}},
}

func (e *Entry) appendTo(name, data string, more bool) bool {
	switch name {
	case "msgctxt":
		e.MsgCtxt += data
	case "msgid_plural":
		e.MsgID2 += data
		e.IsPlural = true
	case "msgid":
		e.MsgID += data
	case "msgstr[]":
		if more {
			e.MsgStrN[len(e.MsgStrN)-1] += data
		} else {
			e.MsgStrN = append(e.MsgStrN, data)
		}
	case "msgstr":
		e.MsgStr += data
	default:
		return false
	}
	return true
}

// readEntry 读取翻译条目
func readEntry(r *reader) (*Entry, error) {
	entry, previous := new(Entry), ""
	r.started = false
next:
	for {
		line, err := r.nextLine()
		switch {
		case errors.Is(err, io.EOF):
			return entry, err
		case err != nil:
			return nil, errors.WithSecondaryError(errInvalidEntry, errors.Wrapf(err, "read entry failed"))
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		if line[0] == '#' {
			if previous != "" {
				_ = r.unGetLine()
				return entry, nil
			}
			entry.MsgCmts = append(entry.MsgCmts, line)
			continue
		}
		r.started = true
		bad := func(err error, what string) error {
			return errors.WithSecondaryError(errInvalidEntry,
				errors.Wrapf(err, "unquote %s failed|line %d: %s", what, r.lineNo, line))
		}
		for _, f := range fields {
			prefix := f.prefix
			if strings.Contains(prefix, "%") {
				prefix = fmt.Sprintf(prefix, len(entry.MsgStrN))
			}
			if !strings.HasPrefix(line, prefix) {
				continue
			}
			if f.anyEnds && previous != "" || slices.Contains(f.ends, previous) {
				_ = r.unGetLine()
				return entry, nil
			}
			data, err := removePrefixAndUnquote(line, prefix)
			if err != nil {
				return nil, bad(err, f.name)
			}
			previous = f.name
			entry.appendTo(f.name, data, false)
			continue next
		}
		if line[0] != '"' {
			return nil, errors.WithSecondaryError(errInvalidEntry,
				errors.Errorf("unexpected line %d: %s", r.lineNo, line))
		}
		data, err := removePrefixAndUnquote(line, "")
		if err != nil {
			return nil, bad(err, previous)
		}
		if !entry.appendTo(previous, data, true) {
			return nil, errors.WithSecondaryError(errInvalidEntry,
				errors.Errorf("string does not follow a field|line %d: %s", r.lineNo, line))
		}
	}
}
'''
s=s.replace('"bytes"\n\t','').replace('\t"io"\n','\t"io"\n\t"slices"\n')
wr('translator/po.go',s)
wr('translator/pot.go','''package translator

import (
	"fmt"
	"io"
	"strconv"
	"strings"
)

const (
	msgctxt     = "msgctxt"
	msgid       = "msgid"
	msgidPlural = "msgid_plural"
	msgstr      = "msgstr"
	msgstrN     = "msgstr[%d]"
)

func writeString(out *strings.Builder, key, content string) {
	out.WriteString(key)
	out.WriteByte(' ')
	for _, line := range split(content, lineThreshold) {
		out.WriteString(strconv.Quote(line))
		out.WriteByte('\\n')
	}
}

// save writes all entries; rest writes what follows the id of an entry
func (f *File) save(w io.Writer, rest func(*strings.Builder, *Entry)) error {
	var out strings.Builder
	for _, entry := range f.SortedEntry() {
		for _, comment := range entry.MsgCmts {
			fmt.Fprintln(&out, comment)
		}
		if entry.MsgCtxt != "" {
			writeString(&out, msgctxt, entry.MsgCtxt)
		}
		writeString(&out, msgid, entry.MsgID)
		rest(&out, entry)
		out.WriteString("\\n")
	}
	_, err := io.WriteString(w, out.String())
	return err
}

// SaveAsPot save this File as pot format
func (f *File) SaveAsPot(w io.Writer) error {
	return f.save(w, func(out *strings.Builder, entry *Entry) {
		switch {
		case entry.IsPlural:
			writeString(out, msgidPlural, entry.MsgID2)
			for i := range 2 {
				writeString(out, fmt.Sprintf(msgstrN, i), "")
			}
		case entry.isHeader():
			writeString(out, msgstr, entry.MsgStr)
		default:
			writeString(out, msgstr, "")
		}
	})
}
''')
# file.go
sub('translator/file.go',('''	for _, e := range file.entries {
		entries = append(entries, e)
	}
	sort.Slice(entries, func(i, j int) bool {
		left := entries[i]
		right := entries[j]
		return left.getSortKey() < right.getSortKey()
	})
	return
''','''	return slices.SortedFunc(maps.Values(file.entries), func(a, b *Entry) int {
		return cmp.Compare(a.getSortKey(), b.getSortKey())
	})
'''),('''	"regexp"
	"sort"
''','''	"cmp"
	"maps"
	"regexp"
	"slices"
'''),('''		kvs := strings.Split(headerEntry.MsgStr, "\\n")
		for _, kv := range kvs {
''','''		for kv := range strings.SplitSeq(headerEntry.MsgStr, "\\n") {
''' if False else '''		for _, kv := range strings.Split(headerEntry.MsgStr, "\\n") {
'''))
# entry.go
sub('translator/entry.go',('fmt.Sprintf("%10d", i)','pad(strconv.FormatInt(i, 10))'),('''	"fmt"
''',''))
s=rd('translator/entry.go')+'''
func pad(s string) string {
	if n := 10 - len(s); n > 0 {
		return strings.Repeat(" ", n) + s
	}
	return s
}
'''
wr('translator/entry.go',s)
# wrap
wr('translator/wrap.go','''package translator

import "strings"

const lineThreshold = 77

// split split long text to small parts by blank or newline(\\n)
func split(long string, threshold int) (parts []string) {
	lines := strings.SplitAfter(long, "\\n")
	if n := len(lines); n > 1 && lines[n-1] == "" {
		lines = lines[:n-1]
	}
	if len(lines) > 1 {
		parts = append(parts, "")
	}
	for i, line := range lines {
		if i < len(lines)-1 {
			parts = append(parts, line)
			continue
		}
		var tail []string
		for len(line) > threshold {
			at := strings.LastIndexByte(line, ' ')
			if at < 0 || at == len(line)-1 {
				break
			}
			tail = append(tail, line[at+1:])
			line = line[:at+1]
		}
		parts = append(parts, line)
		for j := len(tail) - 1; j >= 0; j-- {
			parts = append(parts, tail[j])
		}
	}
	return parts
}
''')
# translations
s=rd('translations.go')
i=s.index('		domains: func() map'); j=s.index('		sourceCodeLocale: ts.sourceCodeLocale,\n	}\n}\n\n// BindFS')
s=s[:i]+'		domains: maps.Clone(ts.domains),\n'+s[j:]
s=s.replace('''	for d := range ts.domains {
		if d == domain {
			return true
		}
	}
	return false
''','''	_, ok := ts.domains[domain]
	return ok
''').replace('''	for domain := range ts.domains {
		domains = append(domains, domain)
	}
	return
''','''	return slices.Collect(maps.Keys(ts.domains))
''').replace('''	m := make(map[string]struct{}, len(tr.langs)+1)
	m[ts.sourceCodeLocale] = struct{}{}
	locales = append(locales, ts.sourceCodeLocale)
	for lang := range tr.langs {
		lang = locale.Normalize(lang)
		if _, ok := m[lang]; !ok {
			m[lang] = struct{}{}
			locales = append(locales, lang)
		}
	}
	sort.Strings(locales)
	return
''','''	locales = append(locales, ts.sourceCodeLocale)
	for lang := range tr.langs {
		locales = append(locales, locale.Normalize(lang))
	}
	slices.Sort(locales)
	return slices.Compact(locales)
''').replace('''	"io/fs"
	"sort"
''','''	"io/fs"
	"maps"
	"slices"
''')
s=s.replace('''	ts.domains = make(map[string]*Translation)
	ts.domain = DefaultDomain''','''	ts.domain, ts.domains = DefaultDomain, map[string]*Translation{}''')
wr('translations.go',s)
# tag.go
wr('tag.go','''package t

import (
	"sync"

	"golang.org/x/text/language"
)

var tagCache = struct {
	sync.RWMutex
	tags map[string]language.Tag
}{tags: map[string]language.Tag{}}

func Tag(locale string) language.Tag {
	tagCache.RLock()
	tag, ok := tagCache.tags[locale]
	tagCache.RUnlock()
	if ok {
		return tag
	}
	tagCache.Lock()
	defer tagCache.Unlock()
	tag = language.Make(locale)
	tagCache.tags[locale] = tag
	return tag
}

func Tags(locales []string) (tags []language.Tag) {
	if len(locales) > 0 {
		tags = make([]language.Tag, 0, len(locales))
	}
	for _, locale := range locales {
		tags = append(tags, Tag(locale))
	}
	return tags
}
''')
sub('http.go',('''	var supported []language.Tag // 转换为 Tag
	for _, lang := range langs {
		supported = append(supported, language.Make(lang))
	}
	matcher := language.NewMatcher(supported)                     // 匹配器
''','''	matcher := language.NewMatcher(Tags(langs))                   // 匹配器
'''))
sub('f/format.go',('''	return fmt.Sprintf("%[1]%"+format, args...)[1:]
''','''	var out strings.Builder
	fmt.Fprintf(&out, "%[1]%"+format, args...)
	return strings.TrimPrefix(out.String(), "%")
'''),('import "fmt"','import (\n\t"fmt"\n\t"strings"\n)'),('''	if msgIDPlural == "" {
		return Format(msgID, args...)
	}
	if n != 1 {
		return Format(msgIDPlural, args...)
	}
	return Format(msgID, args...)
''','''	text := msgID
	if n != 1 && msgIDPlural != "" {
		text = msgIDPlural
	}
	return Format(text, args...)
'''))
sub('errors/errors.go',('''	return fmt.Errorf("%w: %w", err, additionalErr)
}
''','''	return &both{err, additionalErr}
}

// both is an error with a second one
type both struct{ first, second error }

func (b *both) Error() string   { return fmt.Sprintf("%v: %v", b.first, b.second) }
func (b *both) Unwrap() []error { return []error{b.first, b.second} }
'''))
sub('locale/detect.go',('''	if index := strings.IndexAny(lang, ".@"); index >= 0 {
		lang = lang[:index]
	}
''','''	lang, _, _ = strings.Cut(lang, ".")
	lang, _, _ = strings.Cut(lang, "@")
'''))
# exp.go
s=rd('plurals/exp.go')
i=s.index('	switch bopText {'); j=s.index('	s.debug("bop done')
s=s[:i]+'''	right, _ := s.stack.Pop()
	left, _ := s.stack.Pop()
	if bopText == "?" {
		if cond, _ := s.stack.Pop(); cond != _FALSE {
			right = left
		}
		s.stack.Push(right)
		return
	}
	op, ok := binaryOps[bopText]
	if !ok {
		panic("assert error: unexpected text(bop): " + bopText)
	}
	s.stack.Push(op(left, right))
'''+s[j:]
s+='''
func truth(b bool) int64 {
	if b {
		return _TRUE
	}
	return _FALSE
}

// compare builds the operators that compare
func compare(lt, eq, gt bool) func(l, r int64) int64 {
	return func(l, r int64) int64 {
		return truth(lt && l < r || eq && l == r || gt && l > r)
	}
}

var binaryOps = map[string]func(l, r int64) int64{
	"*":  func(l, r int64) int64 { return l * r },
	"/":  func(l, r int64) int64 { return l / r },
	"%":  func(l, r int64) int64 { return l % r },
	"+":  func(l, r int64) int64 { return l + r },
	"-":  func(l, r int64) int64 { return l - r },
	">>": func(l, r int64) int64 { return l >> r },
	"<<": func(l, r int64) int64 { return l << r },
	"<":  compare(true, false, false),
	">":  compare(false, false, true),
	"<=": compare(true, true, false),
	">=": compare(false, true, true),
	"==": compare(false, true, false),
	"!=": compare(true, false, true),
	"&":  func(l, r int64) int64 { return l & r },
	"|":  func(l, r int64) int64 { return l | r },
	"^":  func(l, r int64) int64 { return l & r },
	"&&": func(l, r int64) int64 { return truth(l != _FALSE && r != _FALSE) },
	"||": func(l, r int64) int64 { return truth(l != _FALSE || r != _FALSE) },
}
'''
wr('plurals/exp.go',s)
# xtemplate
sub('cmd/xtemplate/internal/run.go',('''	templates := tmpl.Templates()
	sort.Slice(templates, func(i, j int) bool { return templates[i].Name() < templates[j].Name() })
''','''	templates := tmpl.Templates()
	slices.SortFunc(templates, func(a, b *template.Template) int { return cmp.Compare(a.Name(), b.Name()) })
'''),('''	"fmt"
	"html/template"
''','''	"cmp"
	"fmt"
	"html/template"
'''),('	"regexp"\n	"sort"\n','	"regexp"\n	"slices"\n'),('''	funcs := make(template.FuncMap, len(ctx.Functions)+8)
	for k, v := range ctx.Functions {
		funcs[k] = v
	}
	for name := range scanFuncNames(string(src)) {
		if _, ok := funcs[name]; !ok {
			funcs[name] = noopFun
		}
	}
''','''	funcs := template.FuncMap{}
	for name := range scanFuncNames(string(src)) {
		funcs[name] = noopFun
	}
	maps.Copy(funcs, ctx.Functions)
'''),('	"html/template"\n','	"html/template"\n	"maps"\n'),('''	case *parse.IfNode:
		if node == nil {
			return
		}
		resolvePipe(filename, node.Line, ctx, node.Pipe)
		resolveNode(filename, ctx, node.List)
		resolveNode(filename, ctx, node.ElseList)
	case *parse.RangeNode:
		if node == nil {
			return
		}
		resolvePipe(filename, node.Line, ctx, node.Pipe)
		resolveNode(filename, ctx, node.List)
		resolveNode(filename, ctx, node.ElseList)
	case *parse.WithNode:
		if node == nil {
			return
		}
		resolvePipe(filename, node.Line, ctx, node.Pipe)
		resolveNode(filename, ctx, node.List)
		resolveNode(filename, ctx, node.ElseList)
''','''	case *parse.IfNode:
		resolveBranch(filename, ctx, &node.BranchNode)
	case *parse.RangeNode:
		resolveBranch(filename, ctx, &node.BranchNode)
	case *parse.WithNode:
		resolveBranch(filename, ctx, &node.BranchNode)
'''),('''// resolvePipe 处理 action''','''func resolveBranch(filename string, ctx *Context, node *parse.BranchNode) {
	if node == nil {
		return
	}
	resolvePipe(filename, node.Line, ctx, node.Pipe)
	for _, list := range []*parse.ListNode{node.List, node.ElseList} {
		resolveNode(filename, ctx, list)
	}
}

// resolvePipe 处理 action'''))
s=rd('cmd/xtemplate/internal/keyword.go')
i=s.index('	kw := strings.Split(str'); j=s.index('// Writer ')
s=s[:i]+'''	msg := t.T("invalid keywords: %s", str)
	number := func(s, what string) (int, error) {
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return 0, errors.Wrapf(err, msg+t.T(what, s))
		}
		return int(i), nil
	}
	for rest, more := str, true; more; {
		var item string
		item, rest, more = strings.Cut(rest, ";")
		name, positions, has := strings.Cut(strings.TrimSpace(item), ":")
		k := Keyword{Name: strings.TrimSpace(name), MsgID: 1}
		if k.Name == "" || strings.Contains(positions, ":") {
			return nil, errors.Errorf(msg)
		}
		if !has {
			result = append(result, k)
			continue
		}
		index := strings.Split(positions, ",")
		for i := range index {
			index[i] = strings.TrimSpace(index[i])
		}
		if len(index) > 3 {
			return nil, errors.Errorf(msg + t.T("too much keyword index"))
		}
		ctxt, isCtxt := strings.CutSuffix(index[0], "c")
		if len(index) == 3 && !isCtxt {
			return nil, errors.Errorf(msg + t.T("context index must end with 'c': %v", index[0]))
		}
		if isCtxt && len(index) > 1 {
			if k.MsgCtxt, err = number(ctxt, "context index is not a number: %v"); err != nil {
				return nil, err
			}
			index = index[1:]
		}
		if k.MsgID, err = number(index[0], "msg id index is not a number: %v"); err != nil {
			return nil, err
		}
		if len(index) > 1 {
			if k.MsgID2, err = number(index[1], "msg plural index is not a number: %v"); err != nil {
				return nil, err
			}
		}
		result = append(result, k)
	}
	return result, nil
}

'''+s[j:]
wr('cmd/xtemplate/internal/keyword.go',s)
