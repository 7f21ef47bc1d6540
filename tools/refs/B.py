# variant B: tree evaluator, one walk, decorated sort, scanners by hand, shared helpers, struct copies
import re
R='/repo/'
def rd(p): return open(R+p).read()
def wr(p,s): open(R+p,'w').write(s)
def sub(p,*prs):
    s=rd(p)
    for a,b in prs:
        assert a in s,(p,a)
        s=s.replace(a,b,1)
    wr(p,s)
# translations.go
s=rd('translations.go')
i=s.index('	return &Translations{\n		locale: ts.locale,\n		domain: ts.domain,'); j=s.index('// BindFS load')
s=s[:i]+'''	c := *ts
	c.domains = make(map[string]*Translation, len(ts.domains))
	for name := range ts.domains {
		c.domains[name] = ts.domains[name]
	}
	return &c
}

'''+s[j:]
s=s.replace('''	if domain == "" {
		return false
	}
	if !ts.HasDomain(domain) {
		return false
	}
	delete(ts.domains, domain)
	if ts.domain == domain {
		ts.domain = DefaultDomain
	}
	return true
''','''	before := len(ts.domains)
	if domain != "" {
		delete(ts.domains, domain)
	}
	removed := len(ts.domains) < before
	if removed && ts.domain == domain {
		ts.SetDomain(DefaultDomain)
	}
	return removed
''').replace('''	for d := range ts.domains {
		if d == domain {
			return true
		}
	}
	return false
''','''	_, found := ts.Get(domain)
	return found
''').replace('''	tr, ok := ts.Get(ts.domain)
	if !ok {
		return ts.sourceCodeLocale
	}
	_, ok = tr.Get(ts.locale)
	if !ok {
		return ts.sourceCodeLocale
	}
	return ts.locale
''','''	if tr, ok := ts.Get(ts.domain); ok {
		if _, ok := tr.Get(ts.locale); ok {
			return ts.locale
		}
	}
	return ts.sourceCodeLocale
''').replace('''	tr := ts.GetOrNoop(ts.domain)
	tor := tr.GetOrNoop(ts.locale)
	return tor.X(''','''	return ts.current().X(''').replace('''	tr := ts.GetOrNoop(ts.domain)
	tor := tr.GetOrNoop(ts.locale)
	return tor.XN64(''','''	return ts.current().XN64(''').replace('''	m := make(map[string]struct{}, len(tr.langs)+1)
	m[ts.sourceCodeLocale] = struct{}{}
	locales = append(locales, ts.sourceCodeLocale)
	for lang := range tr.langs {
		lang = locale.Normalize(lang)
		if _, ok := m[lang]; !ok {
			m[lang] = struct{}{}
			locales = append(locales, lang)
		}
	}
	sort.Strings(locales)
	return
''','''	seen := map[string]bool{ts.sourceCodeLocale: true}
	for lang := range tr.langs {
		seen[locale.Normalize(lang)] = true
	}
	for lang := range seen {
		at := sort.SearchStrings(locales, lang)
		locales = append(locales, "")
		copy(locales[at+1:], locales[at:])
		locales[at] = lang
	}
	return locales
''')
s+='''
// current returns the translator in use
func (ts *Translations) current() Translator {
	return ts.GetOrNoop(ts.domain).GetOrNoop(ts.locale)
}
'''
wr('translations.go',s)
# translaton.go
s=rd('translaton.go')
i=s.index('	if pre, ok := tr.langs[lang]; ok {'); j=s.index('// Get get the Translator')
s=s[:i]+'''	previous := tr.langs[lang]
	tr.langs[lang] = tor
	return previous
}

'''+s[j:]
i=s.index('	var loaded = false'); j=s.index('// LoadFile load')
s=s[:i]+'''	files := map[string][]string{}
	_ = fs.WalkDir(f, ".", func(path string, d fs.DirEntry, err error) error {
		switch {
		case err != nil || d == nil || d.IsDir():
		case strings.HasSuffix(d.Name(), extMo):
			files[extMo] = append(files[extMo], path)
		case strings.HasSuffix(d.Name(), extPo):
			files[extPo] = append(files[extPo], path)
		}
		return nil
	})
	loaded := 0
	for _, path := range append(files[extMo], files[extPo]...) {
		if tr.loadPath(f, path) == nil {
			loaded++
		}
	}
	return loaded > 0
}

func (tr *Translation) loadPath(fsys fs.FS, path string) error {
	file, err := fsys.Open(path)
	if err != nil {
		return err
	}
	defer file.Close()
	return tr.LoadFile(file)
}

'''+s[j:]
i=s.index('	if strings.HasSuffix(fileName, extPo) {\n		err ='); 
s=s[:i]+'''	switch path.Ext(fileName) {
	case extPo:
		return tr.LoadPo(content)
	case extMo:
		return tr.LoadMo(content)
	}
	return nil
}

// LoadPo load po file
func (tr *Translation) LoadPo(content []byte) error { return tr.load(translator.ReadPo, content) }

// LoadMo load mo file
func (tr *Translation) LoadMo(content []byte) error { return tr.load(translator.ReadMo, content) }

func (tr *Translation) load(read func([]byte) (*translator.File, error), content []byte) (err error) {
	var file *translator.File
	if file, err = read(content); err == nil {
		if file.Lang() == "" {
			err = errNoLanguage
		} else {
			tr.AddOrReplace(file)
		}
	}
	return
}
'''
s=s.replace('	"io/fs"\n','	"io/fs"\n	"path"\n')
wr('translaton.go',s)
# context / http
sub('context.go',('''	t := Global()
	if lang, ok := GetCtxLocale(ctx); ok {
		t = t.L(lang)
	}
	if domain, ok := GetCtxDomain(ctx); ok {
		t = t.D(domain)
	}
	return t
''','''	result := Global()
	if domain, ok := GetCtxDomain(ctx); ok {
		result.SetDomain(domain)
	}
	if lang, ok := GetCtxLocale(ctx); ok {
		result.SetLocale(lang)
	}
	return result
'''))
s=rd('http.go')
i=s.index('	langs := Locales()')
s=s[:i]+'''	langs := Locales()
	accept, _, _ := language.ParseAcceptLanguage(request.Header.Get(HTTPHeaderAcceptLanguage))
	supported := make([]language.Tag, len(langs))
	for i := range langs {
		supported[i] = Tag(langs[i])
	}
	_, index, _ := MatchTag(supported, accept)
	return langs[index]
}
'''
wr('http.go',s)
sub('f/format.go',('''	return fmt.Sprintf("%[1]%"+format, args...)[1:]
''','''	out := fmt.Appendf(nil, "%[1]%"+format, args...)
	return string(out[1:])
'''),('''	var length = len(args)
	if length == 0 {
		return format
	}
''','''	if len(args) < 1 {
		return format
	}
'''),('args = append(args[:length:length], "")','args = append(append(make([]any, 0, len(args)+1), args...), "")'))
sub('locale/detect.go',('''	return fmt.Sprintf("%v_%v", base, region)
''','''	return base.String() + "_" + region.String()
'''),('	"fmt"\n	"strings"\n\n',''),('''	if index := strings.IndexAny(lang, ".@"); index >= 0 {
		lang = lang[:index]
	}
''','''	for i, c := range []byte(lang) {
		if c == '.' || c == '@' {
			lang = lang[:i]
			break
		}
	}
'''))
# plurals: evaluate the tree recursively
s=rd('plurals/exp.go')
i=s.index('	// 4 遍历'); 
s=s[:i]+'''	// 4 计算表达式
	tree := p.Start_()
	start, ok := tree.(*parser.StartContext)
	if !ok {
		return 0, errListener.err
	}
	v := &evaluator{n: n, debug: ctx.Value(ctxKeyDebug) != nil}
	result = v.eval(start.Exp())
	return result, errListener.err
}

// evaluator computes the value of a tree; all operands are computed, as on a stack machine
type evaluator struct {
	n     int64
	debug bool
}

func (v *evaluator) eval(node parser.IExpContext) (result int64) {
	exp, ok := node.(*parser.ExpContext)
	if !ok || exp == nil {
		return 0
	}
	if v.debug {
		defer func() { fmt.Printf("exp: %v = %v\\n", exp.GetText(), result) }()
	}
	if p, ok := exp.Primary().(*parser.PrimaryContext); ok && p != nil {
		return v.primary(p)
	}
	operands := make([]int64, 0, 3)
	for _, sub := range exp.AllExp() {
		operands = append(operands, v.eval(sub))
	}
	for len(operands) < 3 {
		operands = append(operands, 0)
	}
	a, b, c := operands[0], operands[1], operands[2]
	if t := exp.GetPrefix(); t != nil {
		return unary(t.GetText(), a)
	}
	if t := exp.GetPostfix(); t != nil {
		return unary(t.GetText(), a)
	}
	t := exp.GetBop()
	if t == nil {
		return 0
	}
	if t.GetText() != "?" {
		return binary(t.GetText(), a, b)
	}
	return _if(a != 0, b, c)
}

func (v *evaluator) primary(p *parser.PrimaryContext) int64 {
	if inner := p.Exp(); inner != nil {
		return v.eval(inner)
	}
	text := p.GetText()
	if text == "n" {
		return v.n
	}
	value, err := strconv.ParseInt(text, 10, 64)
	if err != nil {
		panic("assert error: not a number: " + text)
	}
	return value
}

func unary(op string, a int64) int64 {
	switch op {
	case "-":
		a = -a
	case "++":
		a++
	case "--":
		a--
	case "~":
		a = -1 - a
	case "!":
		a = i(a == 0)
	}
	return a
}

func binary(op string, a, b int64) int64 {
	switch op {
	case "*":
		return a * b
	case "/":
		return a / b
	case "%":
		return a % b
	case "+":
		return a + b
	case "-":
		return a - b
	case ">>":
		return a >> b
	case "<<":
		return a << b
	case ">":
		return i(b < a)
	case "<":
		return i(a < b)
	case ">=":
		return i(!(a < b))
	case "<=":
		return i(!(b < a))
	case "==":
		return i(a == b)
	case "!=":
		return i(a != b)
	case "&", "^":
		return a & b
	case "|":
		return a | b
	case "&&":
		return i(a != 0 && b != 0)
	case "||":
		return i(a != 0 || b != 0)
	}
	panic("assert error: unexpected operator: " + op)
}
'''
wr('plurals/exp.go',s)
# translator
sub('translator/file.go',('''	for _, e := range file.entries {
		entries = append(entries, e)
	}
	sort.Slice(entries, func(i, j int) bool {
		left := entries[i]
		right := entries[j]
		return left.getSortKey() < right.getSortKey()
	})
	return
''','''	if len(file.entries) == 0 {
		return nil
	}
	s := &byKey{}
	for _, e := range file.entries {
		s.keys = append(s.keys, e.getSortKey())
		s.entries = append(s.entries, e)
	}
	sort.Sort(s)
	return s.entries
'''),('''	entry, ok := file.entries[key(msgCtxt, msgID)]
	if !ok || entry.MsgStr == "" {
		return f.Format(msgID, args...)
	}
	return f.Format(entry.MsgStr, args...)
''','''	text := msgID
	if entry := file.entries[key(msgCtxt, msgID)]; entry != nil && entry.MsgStr != "" {
		text = entry.MsgStr
	}
	return f.Format(text, args...)
'''),('''	plural := file.getPlural()
	if plural.totalForms <= 0 || plural.fn == nil {
		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
	}
	index := plural.fn(n)
	if index < 0 || index >= int(plural.totalForms) || index >= len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
		// 超出范围
		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
	}
	return f.Format(entry.MsgStrN[index], args...)
''','''	if form := entry.form(file.getPlural(), n); form != "" {
		return f.Format(form, args...)
	}
	return f.DefaultPlural(msgID, msgIDPlural, n, args...)
'''))
s=rd('translator/file.go')
s+='''
// form returns the form of e for n, or an empty text
func (e *Entry) form(p *plural, n int64) string {
	if p.totalForms < 1 || p.fn == nil {
		return ""
	}
	forms := e.MsgStrN
	if len(forms) > p.totalForms {
		forms = forms[:p.totalForms]
	}
	if index := p.fn(n); 0 <= index && index < len(forms) {
		return forms[index]
	}
	return ""
}

// byKey sorts entries, computing each key once
type byKey struct {
	keys    []string
	entries []*Entry
}

func (s *byKey) Len() int           { return len(s.keys) }
func (s *byKey) Less(i, j int) bool { return s.keys[i] < s.keys[j] }
func (s *byKey) Swap(i, j int) {
	s.keys[i], s.keys[j] = s.keys[j], s.keys[i]
	s.entries[i], s.entries[j] = s.entries[j], s.entries[i]
}
'''
s=s.replace('''			find := reHeader.FindAllStringSubmatch(kv, -1)
			if len(find) != 1 || len(find[0]) != 3 {
				continue
			}
			kv := find[0]
			k := strings.TrimSpace(kv[1])
			v := strings.TrimSpace(kv[2])
			if _, ok := headers[k]; !ok {
				headers[k] = v
			}
''','''			name, value, ok := strings.Cut(kv, ": ")
			if !ok {
				continue
			}
			name = strings.TrimSpace(name)
			if _, ok := headers[name]; !ok {
				headers[name] = strings.TrimSpace(value)
			}
''').replace('var reHeader = regexp.MustCompile(`(.*?): (.*)`)\n','').replace('	"regexp"\n','')
wr('translator/file.go',s)
s=rd('translator/entry.go')
i=s.index('	var ss []string')
s=s[:i]+'''	var out strings.Builder
	for _, cmt := range e.MsgCmts {
		rest, ok := strings.CutPrefix(cmt, "#:")
		if !ok {
			continue
		}
		out.WriteString("#:")
		for _, part := range strings.FieldsFunc(rest, func(r rune) bool { return r == ' ' || r == ':' }) {
			if i, err := strconv.ParseInt(part, 10, 64); err == nil {
				fmt.Fprintf(&out, "%10d", i)
			} else {
				out.WriteString(part)
			}
		}
	}
	return out.String()
}
'''
wr('translator/entry.go',s)
wr('translator/reader.go','''package translator

import (
	"io"
	"strings"

	"github.com/youthlin/t/errors"
)

// reader hands out the lines of a text
type reader struct {
	lines     []string
	lineNo    int
	totalLine int
	started   bool // 当前条目是否已有注释以外的内容
}

func newReader(lines []string) *reader {
	r := reader{lines: lines, totalLine: len(lines)}
	r.lineNo--
	return &r
}

func splitLines(text string) (lines []string) {
	for {
		line, rest, more := strings.Cut(text, "\\n")
		lines = append(lines, line)
		if !more {
			return
		}
		text = rest
	}
}

func (r *reader) currentLine() (line string, err error) {
	switch n := r.lineNo; {
	case n < 0:
		err = errors.Errorf("you should call nextLine() first")
	case n < len(r.lines):
		line = r.lines[n]
	default:
		err = io.EOF
	}
	return
}

func (r *reader) nextLine() (string, error) {
	r.lineNo += 1
	return r.currentLine()
}

func (r *reader) unGetLine() error {
	if r.lineNo >= 0 {
		r.lineNo--
		return nil
	}
	return errors.Errorf("already at the beginning")
}
''')
s=rd('translator/po.go')
s=s.replace('''	data := string(content)
	data = strings.ReplaceAll(data, "\\r", "")
	r := newReader(strings.Split(data, "\\n"))
''','''	r := newReader(splitLines(string(bytes.ReplaceAll(content, []byte{'\\r'}, nil))))
''')
# shared helpers in readEntry
s=s.replace('''	r.started = false
	for {
		line, err''','''	r.started = false
	invalid := func(err error, what, line string) (*Entry, error) {
		return nil, errors.WithSecondaryError(errInvalidEntry, errors.Wrapf(err, "unquote %s failed|line %d: %s", what, r.lineNo, line))
	}
	for {
		line, err''')
for w in ('msgctxt','msgid_plural','msgid','msgstr'):
    s=s.replace('''				return nil, errors.WithSecondaryError(errInvalidEntry,
					errors.Wrapf(err, "unquote %s failed|line %%d: %%s", r.lineNo, line))
'''%w,'''				return invalid(err, "%s", line)
'''%w)
s=s.replace('''		if strings.TrimSpace(line) == "" {
			continue
		}
''','''		if len(strings.TrimSpace(line)) == 0 {
			continue
		}
''')
s=s.replace('''	var buf = &bytes.Buffer{}
	for _, entry := range f.SortedEntry() {
		for _, comment := range entry.MsgCmts {
			buf.WriteString(comment)
			buf.WriteString("\\n")
		}
		if entry.MsgCtxt != "" {
			writeString(buf, msgctxt, entry.MsgCtxt)
		}
		writeString(buf, msgid, entry.MsgID)
		if entry''','''	buf := new(bytes.Buffer)
	for _, entry := range f.SortedEntry() {
		entry.writeHead(buf)
		if entry''')
wr('translator/po.go',s)
s=rd('translator/pot.go')
s=s.replace('''		for _, comment := range entry.MsgCmts {
			buf.WriteString(comment)
			buf.WriteString("\\n")
		}
		if entry.MsgCtxt != "" {
			writeString(buf, msgctxt, entry.MsgCtxt)
		}
		writeString(buf, msgid, entry.MsgID)

		if''','''		entry.writeHead(buf)
		if''').replace('''	buf.WriteString(key + " ")
	for _, line := range split(content, lineThreshold) {
		fmt.Fprintf(buf, "%q\\n", line)
	}
''','''	line := append([]byte(key), ' ')
	for _, part := range split(content, lineThreshold) {
		line = append(strconv.AppendQuote(line, part), '\\n')
		buf.Write(line)
		line = line[:0]
	}
''').replace('	"io"\n','	"io"\n	"strconv"\n')
s+='''
// writeHead writes the comments, the context and the id
func (e *Entry) writeHead(buf *bytes.Buffer) {
	for i := range e.MsgCmts {
		buf.WriteString(e.MsgCmts[i] + "\\n")
	}
	if len(e.MsgCtxt) > 0 {
		writeString(buf, msgctxt, e.MsgCtxt)
	}
	writeString(buf, msgid, e.MsgID)
}
'''
wr('translator/pot.go',s)
# MO: same calls, fewer lines
s=rd('translator/mo.go')
i=s.index('	// 3 跳转到 O'); j=s.index('		// 5.3 as Entry')
s=s[:i]+'''	section := func(off uint32, size int64) *io.SectionReader {
		return io.NewSectionReader(r, int64(off), size)
	}
	readTable := func(name string, off uint32) (table []lenOff, err error) {
		in := section(off, int64(len(content)))
		for i := 0; i < int(h.IDCount); i++ {
			var raw [8]byte
			if _, err = io.ReadFull(in, raw[:]); err != nil {
				return nil, errors.WithSecondaryError(errReadMo, errors.Wrapf(err, "failed to read %s[%d]", name, i))
			}
			table = append(table, lenOff{bo.Uint32(raw[:4]), bo.Uint32(raw[4:])})
		}
		return
	}
	idMeta, err := readTable("msg_id", h.OffsetID)
	if err != nil {
		return nil, err
	}
	strMeta, err := readTable("msg_str", h.OffsetStr)
	if err != nil {
		return nil, err
	}
	for i := range idMeta {
		var id, str []byte
		for _, f := range []struct {
			name string
			lo   lenOff
			to   *[]byte
		}{{"msg_id", idMeta[i], &id}, {"msg_str", strMeta[i], &str}} {
			if !inFile(content, f.lo) {
				return nil, errors.WithSecondaryError(errReadMo,
					errors.Wrapf(io.ErrUnexpectedEOF, "%s[%d] is outside the file", f.name, i))
			}
			data, err := io.ReadAll(section(f.lo.OffSet, int64(f.lo.Length)))
			if err != nil {
				return nil, errors.WithSecondaryError(errReadMo, err)
			}
			*f.to = data
		}

'''+s[j:]
i=s.index('func writeMoHeader('); j=s.index('func moMsgID(')
s=s[:i]+'''func writeMoHeader(ws io.Writer, count int) error {
	for _, field := range []any{
		uint32(moMagic), uint32(0), uint32(count), // magic number, version, N
		uint32(offsetO), uint32(offsetO + count*8), // O, T
		[2]uint32{}, uint32(flagLen), []byte(flag), // no hash table, filler
	} {
		if err := binary.Write(ws, binary.LittleEndian, field); err != nil {
			return err
		}
	}
	return nil
}

'''+s[j:]
wr('translator/mo.go',s)
# xtemplate
s=rd('cmd/xtemplate/internal/run.go')
i=s.index('	names := make(map[string]bool)'); j=s.index('// Run 运行')
s=s[:i]+'''	names := make(map[string]bool)
	start := -1
	add := func(end int) {
		if start >= 0 && !templateBuiltins[src[start:end]] {
			names[src[start:end]] = true
		}
		start = -1
	}
	for i, r := range src {
		letter := r == '_' || unicode.IsLetter(r)
		switch {
		case start < 0 && letter:
			start = i
		case start >= 0 && !letter && !unicode.Is(unicode.Nd, r):
			add(i)
		}
	}
	add(len(src))
	return names
}

'''+s[j:]
s=re.sub(r'// identPattern.*?\n.*?\nvar identPattern.*?\n\n','',s,1)
s=s.replace('	"regexp"\n','').replace('	"text/template/parse"\n','	"text/template/parse"\n	"unicode"\n')
i=s.index('	var firstErr error\n'); j=s.index('	ctx.debugPrint("extract done')
s=s[:i]+'''	var failed []error
	for _, filename := range filenames {
		err := resolveOneFile(filename, ctx)
		if err == nil {
			continue
		}
		failed = append(failed, err)
		format := t.T("failed to process file %v. error message: %v")
		if param.Debug {
			format = t.T("failed to process file %v. error message: %+v")
		}
		printErr(format, filename, err)
	}
	if len(failed) > 0 {
		return failed[0]
	}

'''+s[j:]
i=s.index('	switch node := node.(type) {\n	case *parse.ListNode:'); j=s.index('// resolvePipe 处理 action')
s=s[:i]+'''	branch := func(b *parse.BranchNode) {
		resolvePipe(filename, b.Line, ctx, b.Pipe)
		for _, list := range [2]*parse.ListNode{b.List, b.ElseList} {
			if list != nil {
				resolveNode(filename, ctx, list)
			}
		}
	}
	switch node := node.(type) {
	case *parse.ListNode:
		for i := 0; node != nil && i < len(node.Nodes); i++ {
			resolveNode(filename, ctx, node.Nodes[i])
		}
	case *parse.ActionNode:
		if node != nil {
			resolvePipe(filename, node.Line, ctx, node.Pipe)
		}
	case *parse.IfNode:
		if node != nil {
			branch(&node.BranchNode)
		}
	case *parse.RangeNode:
		if node != nil {
			branch(&node.BranchNode)
		}
	case *parse.WithNode:
		if node != nil {
			branch(&node.BranchNode)
		}
	case *parse.TemplateNode:
		if node != nil {
			resolvePipe(filename, node.Line, ctx, node.Pipe)
		}
	}
}

'''+s[j:]
i=s.index('		for i := 0; i < argC; i++ {\n'); j=s.index('// pipedStringArg 处理')
s=s[:i]+'''		for i, arg := range args {
			ctx.debugPrint("  >  >  >  Cmd.Arg: %#v", arg)
			if pipe, ok := arg.(*parse.PipeNode); ok {
				resolvePipe(filename, line, ctx, pipe) // 递归
				continue
			}
			if chain, ok := arg.(*parse.ChainNode); ok {
				if pipe, ok := chain.Node.(*parse.PipeNode); ok {
					resolvePipe(filename, line, ctx, pipe) // (T "id").Field
				}
			}
			if i == head {
				if name := calledName(arg); name != "" {
					filter(ctx, fmt.Sprintf("%v:%d", filename, line), name, i, args)
				}
			}
		}
	}
}

// calledName returns the name of what node calls, if it calls something
func calledName(node parse.Node) string {
	var names []string
	switch node := node.(type) {
	case *parse.IdentifierNode:
		return node.Ident
	case *parse.FieldNode:
		names = node.Ident
	case *parse.VariableNode:
		names = node.Ident
	case *parse.ChainNode:
		names = node.Field
	}
	if len(names) == 0 {
		return ""
	}
	return names[len(names)-1]
}

'''+s[j:]
s=s.replace('''	for _, kw := range ctx.Keywords {
		if kw.Name == name {
''','''	for i := range ctx.Keywords {
		kw := ctx.Keywords[i]
		if kw.Name == name {
''')
wr('cmd/xtemplate/internal/run.go',s)
s=rd('cmd/xtemplate/internal/param.go')
s=s.replace('''	pre, ok := ctx.entries[key]
	if ok {
		if pre.IsPlural != plural {
			return errors''','''	if pre, ok := ctx.entries[key]; ok {
		if pre.IsPlural != plural {
			return errors''').replace('''		pre.MsgCmts = append(pre.MsgCmts, entry.MsgCmts...)
	} else {
		ctx.entries[key] = entry
		if plural {
			ctx.hasPlural = true
		}
	}
	return nil
''','''		pre.MsgCmts = append(pre.MsgCmts, entry.MsgCmts...)
		return nil
	}
	ctx.hasPlural = ctx.hasPlural || plural
	ctx.entries[key] = entry
	return nil
''')
i=s.index('	headers = append(headers, fmt.Sprintf("X-Xtemplate-Input'); j=s.index('	e.MsgStr = strings.Join')
s=s[:i]+'''	for _, field := range [][2]string{
		{"Input", ctx.Input}, {"Left", ctx.Left}, {"Right", ctx.Right},
		{"Keywords", ctx.Keyword}, {"Functions", ctx.Function}, {"Output", ctx.OutputFile},
	} {
		headers = append(headers, "X-Xtemplate-"+field[0]+": "+field[1])
	}
	headers = append(headers, "")
'''+s[j:]
wr('cmd/xtemplate/internal/param.go',s)
