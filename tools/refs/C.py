# behaviour-preserving variant C: caches, pools, goroutines, closures, goto, bufio, generics
R='/repo/'
def rd(p): return open(R+p).read()
def wr(p,s): open(R+p,'w').write(s)
def sub(p,*prs):
    s=rd(p)
    for a,b in prs:
        assert a in s,(p,a)
        s=s.replace(a,b,1)
    wr(p,s)
def cut(p,a,b,new):
    s=rd(p); i=s.index(a); j=s.index(b,i) if b else len(s)
    wr(p,s[:i]+new+s[j:])

# plurals: operators in tables, parsed expressions cached, listeners pooled
cut('plurals/exp.go','	input := antlr.NewInputStream(exp)','const (','''	c := compiled(exp)
	l := listeners.Get().(*myListener)
	defer func() {
		l.ctx, l.result = nil, 0
		l.stack = l.stack[:0]
		listeners.Put(l)
	}()
	l.ctx, l.n = ctx, n
	c.mu.Lock()
	defer c.mu.Unlock()
	antlr.ParseTreeWalkerDefault.Walk(l, c.tree)
	return l.result, c.err
}

type parsed struct {
	once sync.Once
	mu   sync.Mutex
	tree antlr.ParseTree
	err  error
}

var (
	parsedExps sync.Map // string -> *parsed
	listeners  = sync.Pool{New: func() any { return &myListener{stack: make(Int64Stack, 0, 8)} }}
)

func compiled(exp string) *parsed {
	v, _ := parsedExps.LoadOrStore(exp, new(parsed))
	p := v.(*parsed)
	p.once.Do(func() {
		lexer := parser.NewpluralLexer(antlr.NewInputStream(exp))
		var el errorListener
		lexer.RemoveErrorListeners()
		lexer.AddErrorListener(&el)
		ps := parser.NewpluralParser(antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel))
		ps.RemoveErrorListeners()
		ps.AddErrorListener(&el)
		p.tree = ps.Start_()
		p.err = el.err
	})
	return p
}

''')
sub('plurals/exp.go',('	"strings"\n','	"strings"\n	"sync"\n'))
s=rd('plurals/exp.go')
i=s.index('	switch bopText {'); j=s.index('	s.debug("bop done'); 
s=s[:i]+'''	if bopText == "?" {
		s.debug("%v", s.stack)
		vals := s.popN(3)
		if vals[0] != _FALSE {
			s.stack.Push(vals[1])
		} else {
			s.stack.Push(vals[2])
		}
	} else if op, ok := binaryOps[bopText]; ok {
		vals := s.popN(2)
		s.stack.Push(op(vals[0], vals[1]))
	} else {
		panic("assert error: unexpected text(bop): " + bopText)
	}
'''+s[j:]
i=s.index('	switch prefixText {'); j=s.index('// handleExpBop') if '// handleExpBop' in s else s.index('func (s *myListener) handleExpBop')
s=s[:i]+'''	op, ok := map[string]func(*int64){
		"+":  func(*int64) {},
		"-":  func(v *int64) { *v = -*v },
		"++": func(v *int64) { *v++ },
		"--": func(v *int64) { *v-- },
		"~":  func(v *int64) { *v ^= -1 },
		"!":  func(v *int64) { *v = truth(*v == _FALSE) },
	}[prefixText]
	if !ok {
		panic("assert error: unexpected text(prefix): " + prefixText)
	}
	if len(s.stack) == 0 {
		s.stack.Push(0)
		if prefixText == "+" {
			s.stack = s.stack[:0]
			return
		}
	}
	op(&s.stack[len(s.stack)-1])
}

// popN pops n operands, missing ones are 0; the topmost is last.
func (s *myListener) popN(n int) []int64 {
	vals := make([]int64, n)
	for n--; n >= 0; n-- {
		vals[n], _ = s.stack.Pop()
	}
	return vals
}

func truth[B ~bool](b B) int64 {
	if b {
		return _TRUE
	}
	return _FALSE
}

type order int8

const (
	less order = 1 << iota
	equal
	greater
)

// compare makes an operator that is true for some outcomes.
func compare(of order) func(a, b int64) int64 {
	return func(a, b int64) int64 {
		return truth(of&[...]order{less, equal, greater}[cmp.Compare(a, b)+1] != 0)
	}
}

var binaryOps = map[string]func(a, b int64) int64{
	"*":  func(a, b int64) int64 { return a * b },
	"/":  func(a, b int64) int64 { return a / b },
	"%":  func(a, b int64) int64 { return a % b },
	"+":  func(a, b int64) int64 { return a + b },
	"-":  func(a, b int64) int64 { return a - b },
	">>": func(a, b int64) int64 { return a >> b },
	"<<": func(a, b int64) int64 { return a << b },
	">":  compare(greater),
	"<":  compare(less),
	">=": compare(greater | equal),
	"<=": compare(less | equal),
	"==": compare(equal),
	"!=": compare(less | greater),
	"&":  func(a, b int64) int64 { return a & b },
	"|":  func(a, b int64) int64 { return a | b },
	"^":  func(a, b int64) int64 { return a &^ ^b },
	"&&": func(a, b int64) int64 { return truth(a != 0) * truth(b != 0) },
	"||": func(a, b int64) int64 { return truth(a|b != 0) },
}

'''+s[j:]
s=s.replace('import (\n','import (\n	"cmp"\n',1)
wr('plurals/exp.go',s)

# f: builders
cut('f/format.go','	args = append(args[:length:length], "")','}','''	all := make([]any, length+1)
	copy(all, args)
	all[length] = ""
	b := fmt.Appendf(make([]byte, 0, 2*len(format)+8), "%[1]%"+format, all...)
	_, text, _ := strings.Cut(string(b), "%")
	return text
''')
sub('f/format.go',('import "fmt"','import (\n	"fmt"\n	"strings"\n)'))

# locale
cut('locale/detect.go','	if index := strings.IndexAny','	return NormalizeTag(language.Make(lang))','''	for i, r := range lang {
		switch r {
		case '.', '@':
			lang = lang[:i]
			goto done
		}
	}
done:
''')
sub('locale/detect.go',('	return fmt.Sprintf("%v_%v", base, region)','	var b strings.Builder\n	for i, part := range []fmt.Stringer{base, region} {\n		if i != 0 {\n			b.WriteByte(\'_\')\n		}\n		b.WriteString(part.String())\n	}\n	return b.String()'))

# catalogues
sub('translations.go',
 ('		domains: func() map[string]*Translation {\n			m := make(map[string]*Translation)\n			for d, tr := range ts.domains {\n				m[d] = tr\n			}\n			return m\n		}(),','		domains:          copied(ts.domains),'),
 ('	for d := range ts.domains {\n		if d == domain {\n			return true\n		}\n	}\n	return false','	_, found := ts.Get(domain)\n	return found'),
 ('	for domain := range ts.domains {\n		domains = append(domains, domain)\n	}\n	return','	return slices.Collect(maps.Keys(ts.domains))'),
)
cut('translations.go','	m := make(map[string]struct{}, len(tr.langs)+1)','	return\n','''	locales = make([]string, 1, len(tr.langs)+1)
	locales[0] = ts.sourceCodeLocale
	for lang := range maps.Keys(tr.langs) {
		locales = append(locales, locale.Normalize(lang))
	}
	slices.Sort(locales)
	locales = slices.Compact(locales)
''')
cut('translations.go','	tr, ok := ts.Get(ts.domain)\n	if !ok {','// SetLocale','''	if tr, ok := ts.Get(ts.domain); ok {
		if _, ok = tr.Get(ts.locale); ok {
			return ts.locale
		}
	}
	return ts.sourceCodeLocale
}

func copied[M ~map[K]V, K comparable, V any](m M) M {
	c := make(M, len(m))
	for k := range m {
		c[k] = m[k]
	}
	return c
}

''')
sub('translations.go',('	"sort"\n','	"maps"\n	"slices"\n'))
sub('translations.go',('	result := ts.clone()\n	result.SetDomain(domain)\n	return result','	return ts.with((*Translations).SetDomain, domain)'),
 ('	result := ts.clone()\n	result.SetLocale(locale)\n	return result\n}','	return ts.with((*Translations).SetLocale, locale)\n}\n\nfunc (ts *Translations) with(set func(*Translations, string), v string) (result *Translations) {\n	result = ts.clone()\n	defer set(result, v)\n	return result\n}'))

# loading: list first (in the order of names), then files with a worker for reading
cut('translaton.go','	var loaded = false','// LoadFile','''	var moFiles, poFiles []string
	fs.WalkDir(f, ".", func(path string, d fs.DirEntry, err error) error {
		switch {
		case err != nil, d == nil, d.IsDir():
		case strings.HasSuffix(d.Name(), extMo):
			moFiles = append(moFiles, path)
		case strings.HasSuffix(d.Name(), extPo):
			poFiles = append(poFiles, path)
		}
		return nil
	})
	results := make(chan bool)
	go func() {
		defer close(results)
		for _, path := range append(moFiles, poFiles...) {
			results <- tr.loadPath(f, path)
		}
	}()
	loaded := false
	for ok := range results {
		loaded = loaded || ok
	}
	return loaded
}

func (tr *Translation) loadPath(f fs.FS, path string) bool {
	file, err := f.Open(path)
	if err != nil {
		return false
	}
	defer func() { _ = file.Close() }()
	return tr.LoadFile(file) == nil
}

''')
s=rd('translaton.go')
i=s.index('	if strings.HasSuffix(fileName, extPo) {'); j=s.index('	return err\n}',i)
s=s[:i]+'''	loaders := []struct {
		ext  string
		load func(*Translation, []byte) error
	}{{extPo, (*Translation).LoadPo}, {extMo, (*Translation).LoadMo}}
	for _, l := range loaders {
		if strings.HasSuffix(fileName, l.ext) {
			return l.load(tr, content)
		}
	}
'''+s[j:]
i=s.index('	poFile, err := translator.ReadPo(content)'); j=s.index('}\n\n',i)
s=s[:i]+'	return addFile(tr, translator.ReadPo, content)\n'+s[j:]
i=s.index('	moFile, err := translator.ReadMo(content)')
s=s[:i]+'''	return addFile(tr, translator.ReadMo, content)
}

func addFile[T Translator](tr *Translation, read func([]byte) (T, error), content []byte) error {
	tor, err := read(content)
	switch {
	case err != nil:
		return err
	case tor.Lang() == "":
		return errNoLanguage
	}
	tr.AddOrReplace(tor)
	return nil
}
'''
wr('translaton.go',s)

# tags: a locked map
cut('tag.go','var cachedTag','// Tags' if '// Tags' in rd('tag.go') else 'func Tags','''var cachedTag struct {
	sync.RWMutex
	m map[string]language.Tag
}

// Tag make a language.Tag from the locale
func Tag(locale string) language.Tag {
	cachedTag.RLock()
	tag, ok := cachedTag.m[locale]
	cachedTag.RUnlock()
	if !ok {
		tag = language.Make(locale)
		cachedTag.Lock()
		defer cachedTag.Unlock()
		if cachedTag.m == nil {
			cachedTag.m = map[string]language.Tag{}
		}
		cachedTag.m[locale] = tag
	}
	return tag
}

''')

# MO
s=rd('translator/mo.go')
i=s.index('	if _, err := r.Seek(int64(h.OffsetID)'); j=s.index('		var entry = &Entry{')
s=s[:i]+'''	var meta [2][]lenOff
	for which, at := range []uint32{h.OffsetID, h.OffsetStr} {
		table := bufio.NewReader(io.NewSectionReader(r, int64(at), 1<<40))
		for k := uint32(0); k < h.IDCount; k++ {
			var lo lenOff
			if err := binary.Read(table, bo, &lo); err != nil {
				return nil, errors.WithSecondaryError(errReadMo,
					errors.Wrapf(err, "failed to read %s[%d] length & offset", [...]string{"msg_id", "msg_str"}[which], k))
			}
			meta[which] = append(meta[which], lo)
		}
	}
	for i := uint32(0); i < h.IDCount; i++ {
		var texts [2]strings.Builder
		for which := range texts {
			lo := meta[which][i]
			if !inFile(content, lo) {
				return nil, errors.WithSecondaryError(errReadMo,
					errors.Wrapf(io.ErrUnexpectedEOF, "text %d of message %d is outside the file", which, i))
			}
			if _, err := io.Copy(&texts[which], io.NewSectionReader(r, int64(lo.OffSet), int64(lo.Length))); err != nil {
				return nil, errors.WithSecondaryError(errReadMo, err)
			}
		}
		id, str := texts[0].String(), texts[1].String()
'''+s[j:]
s=s.replace('MsgID:  string(id),','MsgID:  id,').replace('MsgStr: string(str),','MsgStr: str,')
i=s.index('	var entries = f.SortedEntry()'); j=s.index('func writeMoHeader')
k=s.rfind('//',i,j)
s=s[:i]+'''	type pair struct{ id, str string }
	var pairs []pair
	for _, e := range f.SortedEntry() {
		p := pair{moMsgID(e), moMsgStr(e)}
		at, _ := slices.BinarySearchFunc(pairs, p, func(a, b pair) int { return strings.Compare(a.id, b.id) })
		pairs = slices.Insert(pairs, at, p)
	}
	var (
		tail  bytes.Buffer
		table = make([]lenOff, 2*count)
		base  = offsetO + len(table)*8
		put   = func(slot int, s string) {
			table[slot] = lenOff{uint32(len(s)), uint32(base + tail.Len())}
			tail.WriteString(s)
			tail.WriteByte(0)
		}
	)
	for i := range pairs {
		put(i, pairs[i].id)
	}
	for i := range pairs {
		put(count+i, pairs[i].str)
	}
	if err := binary.Write(ws, binary.LittleEndian, table); err != nil {
		return err
	}
	tail.WriteTo(ws)
	_, err := ws.WriteTo(w)
	return err
}

'''+s[j:]
s=s.replace('	"sort"\n','	"slices"\n').replace('import (\n','import (\n	"bufio"\n',1)
i=s.index('	if err := binary.Write(ws, binary.LittleEndian, uint32(moMagic))'); j=s.index('func moMsgID'); j=s.rfind('}',i,j)
s=s[:i]+'''	head := [...]uint32{moMagic, 0, uint32(count), uint32(offsetO), uint32(offsetT), 0, 0, uint32(flagLen)}
	if err := binary.Write(ws, binary.LittleEndian, &head); err != nil {
		return err
	}
	_, err := io.WriteString(ws, flag)
	return err
'''+s[j:]
wr('translator/mo.go',s)

# PO reading: lines from a scanner, fields in a table, one jump instead of nesting
s=rd('translator/po.go')
i=s.index('	data := string(content)'); j=s.index('	file := new(File)')
s=s[:i]+'''	sc := bufio.NewScanner(bytes.NewReader(content))
	sc.Buffer(nil, len(content)+1)
	sc.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		if at := bytes.IndexByte(data, '\\n'); at >= 0 {
			return at + 1, data[:at], nil
		}
		if atEOF && len(data) > 0 {
			return len(data), data, nil
		}
		return 0, nil, nil
	})
	var lines []string
	for sc.Scan() {
		lines = append(lines, strings.ReplaceAll(sc.Text(), "\\r", ""))
	}
	r := newReader(lines)
'''+s[j:]
i=s.index('// readEntry') if '// readEntry' in s else s.index('func readEntry'); j=s.index('func equalsAny')
s=s[:i]+'''type poState uint8

const (
	poNone poState = iota
	poCtxt
	poID
	poID2
	poStr
	poStrN
)

// after tells whether a field starts a new entry after another.
var after = [...]uint8{
	poCtxt: 1<<poCtxt | 1<<poID | 1<<poID2 | 1<<poStr | 1<<poStrN,
	poID:   1<<poID | 1<<poID2 | 1<<poStr | 1<<poStrN,
	poID2:  1<<poID2 | 1<<poStr | 1<<poStrN,
	poStr:  1 << poStrN,
	poStrN: 1 << poStr,
}

func readEntry(r *reader) (*Entry, error) {
	var (
		entry = new(Entry)
		state poState
		at    *string
		line  string
		err   error
	)
	fail := func(err error, format string, args ...any) (*Entry, error) {
		return nil, errors.WithSecondaryError(errInvalidEntry, errors.Wrapf(err, format, args...))
	}
	r.started = false
next:
	if line, err = r.nextLine(); err != nil {
		if errors.Is(err, io.EOF) {
			return entry, err
		}
		return fail(err, "read entry failed")
	}
	if strings.TrimSpace(line) == "" {
		goto next
	}
	if line[0] == '#' {
		if state == poNone {
			entry.MsgCmts = append(entry.MsgCmts, line)
			goto next
		}
		r.unGetLine()
		return entry, nil
	}
	r.started = true
	{
		fields := []struct {
			prefix string
			state  poState
			to     *string
		}{
			{"msgctxt ", poCtxt, &entry.MsgCtxt},
			{"msgid_plural ", poID2, &entry.MsgID2},
			{"msgid ", poID, &entry.MsgID},
			{"msgstr[" + strconv.Itoa(len(entry.MsgStrN)) + "] ", poStrN, nil},
			{"msgstr ", poStr, &entry.MsgStr},
		}
		for _, f := range fields {
			if !strings.HasPrefix(line, f.prefix) {
				continue
			}
			if after[f.state]&(1<<state) != 0 {
				r.unGetLine()
				return entry, nil
			}
			data, err := removePrefixAndUnquote(line, f.prefix)
			if err != nil {
				return fail(err, "unquote %sfailed|line %d: %s", f.prefix, r.lineNo, line)
			}
			state, at = f.state, f.to
			switch state {
			case poStrN:
				entry.MsgStrN = append(entry.MsgStrN, "")
				at = &entry.MsgStrN[len(entry.MsgStrN)-1]
			case poID2:
				entry.IsPlural = true
			}
			*at += data
			goto next
		}
	}
	if line[0] != '"' {
		return nil, errors.WithSecondaryError(errInvalidEntry, errors.Errorf("unexpected line %d: %s", r.lineNo, line))
	}
	if data, err := removePrefixAndUnquote(line, ""); err != nil {
		return fail(err, "unquote failed|line %d: %s", r.lineNo, line)
	} else if at == nil {
		return nil, errors.WithSecondaryError(errInvalidEntry, errors.Errorf("string does not follow a field|line %d: %s", r.lineNo, line))
	} else {
		*at += data
	}
	goto next
}

'''+s[j:]
s=s.replace('import (\n','import (\n	"bufio"\n',1).replace('	"io"\n','	"io"\n	"strconv"\n',1)
# writing
i=s.index('	var buf = &bytes.Buffer{}\n	for _, entry := range f.SortedEntry()'); j=s.index('var errInvalidEntry'); 
j2=s.rfind('}\n',i,j)
s=s[:i]+'''	return f.save(w, func(buf *bytes.Buffer, entry *Entry) {
		if entry.MsgStr != "" {
			writeString(buf, msgstr, entry.MsgStr)
		}
		for i, str := range entry.MsgStrN {
			writeString(buf, fmt.Sprintf(msgstrN, i), str)
		}
	})
}

var buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

// save writes all entries; last writes the translations of one.
func (f *File) save(w io.Writer, last func(*bytes.Buffer, *Entry)) error {
	buf := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buf)
	buf.Reset()
	for _, entry := range f.SortedEntry() {
		for _, comment := range entry.MsgCmts {
			fmt.Fprintln(buf, comment)
		}
		if entry.MsgCtxt != "" {
			writeString(buf, msgctxt, entry.MsgCtxt)
		}
		writeString(buf, msgid, entry.MsgID)
		if entry.IsPlural {
			writeString(buf, msgidPlural, entry.MsgID2)
		}
		last(buf, entry)
		buf.WriteByte('\\n')
	}
	_, err := buf.WriteTo(w)
	return err
'''+s[j2:]
s=s.replace('	"strings"\n','	"strings"\n	"sync"\n',1)
wr('translator/po.go',s)
s=rd('translator/pot.go')
i=s.index('	var buf = &bytes.Buffer{}')
s=s[:i]+'''	return f.save(w, func(buf *bytes.Buffer, entry *Entry) {
		switch {
		case entry.IsPlural:
			for i := range 2 {
				writeString(buf, fmt.Sprintf(msgstrN, i), "")
			}
		case entry.isHeader():
			writeString(buf, msgstr, entry.MsgStr)
		default:
			writeString(buf, msgstr, "")
		}
	})
}
'''
s=s.replace('	for _, line := range split(content, lineThreshold) {\n		fmt.Fprintf(buf, "%q\\n", line)\n	}','	var quoted []byte\n	for _, line := range split(content, lineThreshold) {\n		quoted = append(strconv.AppendQuote(quoted[:0], line), \'\\n\')\n		buf.Write(quoted)\n	}').replace('	"io"\n','	"io"\n	"strconv"\n')
wr('translator/pot.go',s)

# wrapping without recursion on lines
cut('translator/wrap.go','func split0','','') if False else None
s=rd('translator/wrap.go')
i=s.index('func split0'); i=s.rfind('\n\n',0,i)+2
s=s[:i]+'''func split0(long string, threshold int, depth int) (lines []string) {
	parts := strings.SplitAfter(long, "\\n")
	if n := len(parts); n > 1 && parts[n-1] == "" {
		parts = parts[:n-1]
	}
	if len(parts) > 1 && depth == 0 {
		lines = append(lines, "")
	}
	for i, part := range parts {
		var rev []string
		for i == len(parts)-1 && len(part) > threshold {
			at := strings.LastIndexByte(part[:len(part)-1], ' ')
			if part[len(part)-1] == ' ' || at < 0 {
				break
			}
			rev = append(rev, part[at+1:])
			part = part[:at+1]
		}
		rev = append(rev, part)
		slices.Reverse(rev)
		lines = append(lines, rev...)
	}
	return lines
}
'''
s=s.replace('import (\n','import (\n	"slices"\n',1)
wr('translator/wrap.go',s)

# file: lazily computed header, sort keys in a heap
s=rd('translator/file.go')
i=s.index('	for _, e := range file.entries {'); j=s.index('	return\n',i)
s=s[:i]+'''	h := new(entryHeap)
	for _, e := range file.entries {
		heap.Push(h, keyed{e.getSortKey(), e})
	}
	for h.Len() > 0 {
		entries = append(entries, heap.Pop(h).(keyed).Entry)
	}
'''+s[j:]
s+='''
type keyed struct {
	key string
	*Entry
}

type entryHeap []keyed

func (h entryHeap) Len() int           { return len(h) }
func (h entryHeap) Less(i, j int) bool { return h[i].key < h[j].key }
func (h entryHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *entryHeap) Push(x any)        { *h = append(*h, x.(keyed)) }
func (h *entryHeap) Pop() (x any) {
	last := len(*h) - 1
	x, *h = (*h)[last], (*h)[:last]
	return
}
'''
s=s.replace('	"sort"\n','').replace('import (\n','import (\n	"container/heap"\n',1)
wr('translator/file.go',s)

# entry: a cached sort key builder
s=rd('translator/entry.go')
i=s.index('	var ss []string\n'); 
s=s[:i]+'''	var b strings.Builder
	for _, cmt := range e.MsgCmts {
		rest, ok := strings.CutPrefix(cmt, "#:")
		if !ok {
			continue
		}
		b.WriteString("#:")
		for _, n := range strings.Split(strings.NewReplacer(" ", "\\x00", ":", "\\x00").Replace(rest), nul) {
			if i, err := strconv.ParseInt(n, 10, 64); err == nil {
				n = fmt.Sprintf("%10d", i)
			}
			b.WriteString(n)
		}
	}
	return b.String()
}
'''
wr('translator/entry.go',s)

# plural: evaluated lazily
sub('translator/plural.go',('			p.fn = func(i int64) int {\n				index, err := plurals.Eval(context.Background(), exp, i)\n				if err != nil {\n					return -1\n				}\n				return int(index)\n			}','			p.fn = evaluator(exp)'))
s=rd('translator/plural.go')
s+='''
func evaluator(exp string) func(int64) int {
	eval := func(i int64) (index int64, err error) {
		return plurals.Eval(context.Background(), exp, i)
	}
	return func(i int64) (form int) {
		form = -1
		if index, err := eval(i); err == nil {
			form = int(index)
		}
		return
	}
}
'''
wr('translator/plural.go',s)

# errors: own type
wr('errors/errors.go',rd('errors/errors.go').replace('	args = append(args[:len(args):len(args)], err)\n	return fmt.Errorf(format+": %w", args...)','	return &wrapped{cause: err, text: fmt.Errorf(format, args...)}')+'''
type wrapped struct{ cause, text error }

func (w *wrapped) Error() string { return w.text.Error() + ": " + w.cause.Error() }

func (w *wrapped) Unwrap() []error { return []error{w.cause, w.text} }
''') if False else None

# extractor: visitor by node type, keywords by name, reading in the background
s=rd('cmd/xtemplate/internal/run.go')
i=s.index('	var firstErr error\n	for _, filename := range filenames {'); j=s.index('	if firstErr != nil {\n		return firstErr',i)
s=s[:i]+'''	var (
		firstErr error
		wg       sync.WaitGroup
		sources  = make([]func() ([]byte, error), len(filenames))
	)
	for i, filename := range filenames {
		sources[i] = sync.OnceValues(func() ([]byte, error) { return os.ReadFile(filename) })
		wg.Add(1)
		go func() {
			defer wg.Done()
			sources[i]()
		}()
	}
	wg.Wait()
	for i, filename := range filenames {
		err := resolveSource(filename, ctx, sources[i])
		if err == nil {
			continue
		}
		format := t.T("failed to process file %v. error message: %v")
		if param.Debug {
			format = t.T("failed to process file %v. error message: %+v")
		}
		printErr(format, filename, err)
		firstErr = cmp.Or(firstErr, err)
	}
'''+s[j:]
i=s.index('	src, err := os.ReadFile(filename)')
s=s.replace('func resolveOneFile(filename string, ctx *Context) error {','''func resolveOneFile(filename string, ctx *Context) error {
	return resolveSource(filename, ctx, func() ([]byte, error) { return os.ReadFile(filename) })
}

func resolveSource(filename string, ctx *Context, read func() ([]byte, error)) error {''').replace('	src, err := os.ReadFile(filename)','	src, err := read()')
s=s.replace('	for name := range scanFuncNames(string(src)) {\n		if _, ok := funcs[name]; !ok {\n			funcs[name] = noopFun\n		}\n	}','	for name := range scanFuncNames(string(src)) {\n		if funcs[name] == nil {\n			funcs[name] = noopFun\n		}\n	}')
s=s.replace('''	for _, name := range identPattern.FindAllString(src, -1) {
		if !templateBuiltins[name] {
			names[name] = true
		}
	}
''','''	identPattern.ReplaceAllStringFunc(src, func(name string) string {
		if !templateBuiltins[name] {
			names[name] = true
		}
		return ""
	})
''')
s=s.replace('	sort.Slice(templates, func(i, j int) bool { return templates[i].Name() < templates[j].Name() })','	slices.SortStableFunc(templates, func(a, b *template.Template) int { return strings.Compare(a.Name(), b.Name()) })')
i=s.index('func resolveNode('); i=s.rfind('\n\n',0,i)+2; j=s.index('func resolvePipe('); j=s.rfind('\n\n',0,j)+2
s=s[:i]+'''func resolveNode(filename string, ctx *Context, node parse.Node) {
	todo := []parse.Node{node}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if n == nil || reflect.ValueOf(n).IsNil() {
			continue
		}
		var branch *parse.BranchNode
		switch n.Type() {
		case parse.NodeList:
			for _, child := range slices.Backward(n.(*parse.ListNode).Nodes) {
				todo = append(todo, child)
			}
		case parse.NodeAction:
			n := n.(*parse.ActionNode)
			resolvePipe(filename, n.Line, ctx, n.Pipe)
		case parse.NodeTemplate:
			n := n.(*parse.TemplateNode)
			resolvePipe(filename, n.Line, ctx, n.Pipe)
		case parse.NodeIf:
			branch = &n.(*parse.IfNode).BranchNode
		case parse.NodeRange:
			branch = &n.(*parse.RangeNode).BranchNode
		case parse.NodeWith:
			branch = &n.(*parse.WithNode).BranchNode
		}
		if branch != nil {
			resolvePipe(filename, branch.Line, ctx, branch.Pipe)
			todo = append(todo, branch.ElseList, branch.List)
		}
	}
}

'''+s[j:]
i=s.index('			switch arg := arg.(type) {\n			case *parse.PipeNode:'); j=s.index('func pipedStringArg'); j=s.rfind('\n}\n',i,j)
s=s[:i]+'''			var path []string
			switch arg := arg.(type) {
			case *parse.PipeNode:
				resolvePipe(filename, line, ctx, arg)
			case *parse.IdentifierNode:
				path = []string{arg.Ident}
			case *parse.FieldNode:
				path = arg.Ident
			case *parse.VariableNode:
				path = arg.Ident
			case *parse.ChainNode:
				if pipe, ok := arg.Node.(*parse.PipeNode); ok {
					resolvePipe(filename, line, ctx, pipe)
				}
				path = arg.Field
			}
			if i == head && len(path) > 0 {
				where := strings.Join([]string{filename, strconv.Itoa(line)}, ":")
				filter(ctx, where, path[len(path)-1], i, args)
			}
		}
	}'''+s[j:]
s=s.replace('	"regexp"\n','').replace('	"path/filepath"\n','	"path/filepath"\n	"reflect"\n	"regexp"\n').replace('	"sort"\n','	"slices"\n	"strconv"\n	"strings"\n	"sync"\n').replace('import (\n','import (\n	"cmp"\n',1)
wr('cmd/xtemplate/internal/run.go',s)

# keyword specifications: one loop
s=rd('cmd/xtemplate/internal/keyword.go')
i=s.index('		switch len(index) {'); j=s.index('		result = append(result, k)\n',i)
s=s[:i]+'''		var to []*int
		var names = []string{"msg id", "msg plural"}
		switch c, isCtxt := strings.CutSuffix(index[0], "c"); {
		case len(index) > 3:
			return nil, errors.Errorf(msg + t.T("too much keyword index"))
		case len(index) == 3 && !isCtxt:
			return nil, errors.Errorf(msg + t.T("context index must end with 'c': %v", index[0]))
		case len(index) > 1 && isCtxt:
			index[0] = c
			names = append([]string{"context"}, names...)
			to = append(to, &k.MsgCtxt)
			fallthrough
		default:
			to = append(to, &k.MsgID, &k.MsgID2)
		}
		for i, text := range index {
			n, err := strconv.Atoi(text)
			if err != nil {
				return nil, errors.Wrapf(err, msg+t.T(names[i]+" index is not a number: %v", text))
			}
			*to[i] = n
		}
'''+s[j:]
wr('cmd/xtemplate/internal/keyword.go',s)
