package h

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"html"
	"io"
	"iter"
	"maps"
	"math"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/scanner"
	"time"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"
	"unique"
	"unsafe"

	"github.com/youthlin/t/zzverif/sym"
)

func xs() string  { return sym.StringIn(3, "ab :\n1") }
func ob(v ...any) { sym.ObserveStr("v", fmt.Sprintln(v...)) }

func H_X01_maps() {
	m := map[string]int{"a": 1, "b": 2, xs(): 3}
	c := maps.Clone(m)
	c["zz"] = 4
	maps.DeleteFunc(c, func(k string, v int) bool { return v == 1 })
	ks := slices.Sorted(maps.Keys(c))
	vs := slices.Collect(maps.Values(m))
	slices.Sort(vs)
	ob(ks, vs, len(m), maps.Equal(m, c))
	maps.Copy(m, c)
	maps.Insert(m, maps.All(c))
	clear(c)
	ob(len(m), len(c))
	var n map[string]int
	ob(maps.Clone(n) == nil)
	d := maps.Collect(maps.All(m))
	ob(len(d))
	ob(slices.SortedFunc(maps.Keys(m), func(a, b string) int { return -cmp.Compare(a, b) }))
}

func H_X01_slices() {
	s := strings.Split(xs(), "")
	ob(slices.Contains(s, "a"), slices.Index(s, "b"), slices.IndexFunc(s, func(x string) bool { return x == ":" }))
	t := slices.Clone(s)
	slices.Reverse(t)
	slices.SortStableFunc(t, strings.Compare)
	_, ok := slices.BinarySearch(t, "a")
	ob(ok, slices.Compact(slices.Clone(t)), slices.Equal(s, t), slices.Compare(s, t), slices.Max(s), slices.Min(s))
	t = slices.Insert(slices.Clone(s), 1, "x", "y")
	t = slices.Delete(t, 0, 1)
	t = slices.Replace(t, 0, 1, "q")
	t = slices.Grow(t, 4)
	t = slices.Clip(t)
	ob(t, slices.Concat(s, t), slices.Repeat(s, 2))
	for c := range slices.Chunk(t, 2) {
		ob(c)
	}
	for i, v := range slices.Backward(t) {
		ob(i, v)
	}
	ob(slices.DeleteFunc(t, func(x string) bool { return x == "q" }), slices.IsSorted(s))
	ob(slices.ContainsFunc(s, func(x string) bool { return x > "a" }), slices.AppendSeq([]string(nil), slices.Values(s)))
}

func H_X01_sort() {
	s := strings.Split(xs(), "")
	sort.Sort(sort.Reverse(sort.StringSlice(s)))
	ob(s)
	sort.Stable(sort.StringSlice(s))
	ob(sort.SearchStrings(s, "a"), sort.StringsAreSorted(s), sort.Search(len(s), func(i int) bool { return s[i] >= "b" }))
	i := []int{3, 1, 2}
	sort.Ints(i)
	sort.SliceStable(i, func(a, b int) bool { return i[a] > i[b] })
	ob(i, sort.SliceIsSorted(i, func(a, b int) bool { return i[a] > i[b] }))
	f, ok := sort.Find(len(s), func(i int) int { return strings.Compare("b", s[i]) })
	ob(f, ok)
}

func H_X01_strings() {
	s := xs()
	ob(strings.Fields(s), strings.FieldsFunc(s, func(r rune) bool { return r == 'a' }), strings.Count(s, "a"), strings.Count(s, ""))
	ob(strings.Map(func(r rune) rune {
		if r == 'a' {
			return -1
		}
		return r + 1
	}, s), strings.Repeat(s, 2), strings.ReplaceAll(s, "a", "xy"), strings.Replace(s, "a", "", 1))
	ob(strings.TrimLeft(s, "ab"), strings.TrimRight(s, " \n"), strings.Trim(s, "a1"), strings.TrimFunc(s, unicode.IsSpace))
	b, a, ok := strings.Cut(s, ":")
	ob(b, a, ok)
	b, ok = strings.CutPrefix(s, "a")
	ob(b, ok)
	b, ok = strings.CutSuffix(s, "a")
	ob(b, ok)
	ob(strings.NewReplacer("a", "1", "b", "22").Replace(s), strings.NewReplacer("a", "1", "b", "2").Replace(s), strings.NewReplacer("a:", "1", "b1", "2").Replace(s))
	ob(strings.ToValidUTF8(s+"\xff", "?"), strings.Clone(s), strings.Compare(s, "ab"))
}
func H_X01_strings2() {
	s := xs()
	ob(strings.ToUpper(s), strings.ToLower(s), strings.Title(s), strings.EqualFold(s, "AB:"))
	ob(strings.SplitN(s, "a", 2), strings.SplitAfterN(s, ":", 2), strings.LastIndexAny(s, "a1"), strings.IndexAny(s, ":\n"), strings.IndexFunc(s, unicode.IsDigit), strings.LastIndexFunc(s, unicode.IsLetter), strings.ContainsAny(s, "b1"), strings.ContainsRune(s, 'b'), strings.ContainsFunc(s, unicode.IsSpace))
	r := strings.NewReader(s)
	x, err := r.ReadByte()
	ob(x, err, r.Len(), r.UnreadByte())
	y, n, err := r.ReadRune()
	ob(y, n, err, r.UnreadRune())
	w, err := io.ReadAll(r)
	ob(string(w), err)
	r.Reset(s)
	r.Seek(1, io.SeekStart)
	var sb strings.Builder
	r.WriteTo(&sb)
	sb.Grow(10)
	sb.WriteRune('é')
	ob(sb.String(), sb.Len())
	sb.Reset()
}

func H_X01_bytes() {
	s := []byte(xs())
	ob(bytes.Fields(s), bytes.Split(s, []byte("a")), bytes.TrimSpace(s), bytes.HasPrefix(s, []byte("a")), bytes.Contains(s, []byte("ab")))
	ob(bytes.Join([][]byte{s, s}, []byte("-")), bytes.Repeat(s, 2), bytes.Runes(s), bytes.Clone(s), bytes.ContainsRune(s, 'a'))
	b, a, ok := bytes.Cut(s, []byte(":"))
	ob(b, a, ok, bytes.IndexAny(s, "a1"), bytes.TrimRight(s, "\n"), bytes.Map(unicode.ToUpper, s), bytes.IndexRune(s, 'b'))
	buf := bytes.NewBufferString("x")
	buf.Write(s)
	fmt.Fprintf(buf, "%q", s)
	buf.WriteRune('é')
	l, err := buf.ReadString('"')
	ob(l, err)
	l2, err := buf.ReadBytes('z')
	ob(l2, err)
	buf.Truncate(0)
	buf.ReadFrom(bytes.NewReader(s))
	c, _ := buf.ReadByte()
	buf.UnreadByte()
	ob(c, buf.Next(2), buf.Cap() > 0, buf.Available() >= 0)
	rd := bytes.NewReader(s)
	p := make([]byte, 2)
	n, err := rd.ReadAt(p, 1)
	ob(n, err, p, rd.Size())
	ob(bytes.LastIndex(s, []byte("a")), bytes.SplitAfter(s, []byte("a")))
}

func H_X01_bufio() {
	s := xs() + "\nend"
	sc := bufio.NewScanner(strings.NewReader(s))
	for sc.Scan() {
		ob(sc.Text())
	}
	ob(sc.Err())
	sc = bufio.NewScanner(strings.NewReader(s))
	sc.Split(bufio.ScanWords)
	for sc.Scan() {
		ob(sc.Bytes())
	}
	sc = bufio.NewScanner(strings.NewReader(s))
	sc.Buffer(make([]byte, 8), 1<<20)
	sc.Split(bufio.ScanRunes)
	k := 0
	for sc.Scan() {
		k++
	}
	ob(k)
	r := bufio.NewReader(strings.NewReader(s))
	l, err := r.ReadString('\n')
	ob(l, err)
	b, p, err := r.ReadLine()
	ob(b, p, err)
	b, err = r.Peek(1)
	ob(b, err)
	var out bytes.Buffer
	w := bufio.NewWriterSize(&out, 16)
	w.WriteString(s)
	fmt.Fprintf(w, "%d", 5)
	ob(w.Buffered(), w.Flush(), out.String())
}

func H_X01_strconv() {
	s := xs()
	i, err := strconv.Atoi(s)
	ob(i, err)
	u, err := strconv.ParseUint(s, 10, 8)
	ob(u, err)
	ob(strconv.Quote(s), strconv.QuoteToASCII(s+"é"), strconv.QuoteRune('a'), strconv.AppendQuote(nil, s), strconv.Itoa(len(s)), strconv.FormatInt(-5, 2), strconv.AppendInt(nil, 7, 10))
	q, err := strconv.Unquote("\"" + s + "\"")
	ob(q, err)
	r, mb, t, err := strconv.UnquoteChar(s, '"')
	ob(r, mb, t, err)
	q, err = strconv.QuotedPrefix("\"" + s + "\"x")
	ob(q, err)
	b, err := strconv.ParseBool(s[:1])
	ob(b, err)
	ob(strconv.FormatBool(s == "a"), strconv.CanBackquote(s), strconv.FormatFloat(1.5, 'g', -1, 64))
	var ne *strconv.NumError
	_, err = strconv.ParseInt(s, 0, 64)
	if errors.As(err, &ne) {
		ob(ne.Func, ne.Num, ne.Err == strconv.ErrSyntax)
	}
}

type xerr struct{ s string }

func (e *xerr) Error() string { return "xerr " + e.s }
func (e *xerr) Is(t error) bool {
	_, ok := t.(*xerr)
	return ok
}

func H_X01_errors() {
	s := xs()
	e := fmt.Errorf("a %s: %w", s, &xerr{s})
	j := errors.Join(e, nil, io.EOF)
	var x *xerr
	ob(errors.As(j, &x), errors.Is(j, io.EOF), errors.Is(e, &xerr{"q"}), errors.Unwrap(e) != nil, j)
	two := fmt.Errorf("%w and %w", io.EOF, e)
	ob(two, errors.Is(two, io.EOF))
	func() {
		defer func() {
			r := recover()
			err, ok := r.(runtime.Error)
			ob(ok, err)
		}()
		var a []int
		_ = a[len(s)]
	}()
	func() {
		defer func() { ob(recover()) }()
		defer func() { panic("second " + s) }()
		panic("first")
	}()
	func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("got %v", r)
				ob(err)
			}
		}()
		var m map[string]int
		m[s] = 1
		return nil
	}()
	func() {
		defer func() { ob(recover() != nil) }()
		var i any = s
		_ = i.(fmt.Stringer)
	}()
}

func H_X01_io() {
	s := xs()
	var b bytes.Buffer
	w := io.MultiWriter(&b, io.Discard)
	n, err := io.Copy(w, io.LimitReader(io.TeeReader(io.MultiReader(strings.NewReader(s), strings.NewReader("tail")), io.Discard), 5))
	ob(n, err, b.String())
	sr := io.NewSectionReader(strings.NewReader(s), 1, 2)
	d, err := io.ReadAll(sr)
	ob(d, err, sr.Size())
	p := make([]byte, 4)
	k, err := io.ReadFull(strings.NewReader(s), p)
	ob(k, err)
	k, err = io.ReadAtLeast(strings.NewReader(s), p, 2)
	ob(k, err)
	io.WriteString(&b, s)
	_, err = io.CopyN(io.Discard, strings.NewReader(s), 9)
	ob(err)
	rc := io.NopCloser(strings.NewReader(s))
	rc.Close()
}

func H_X01_binary() {
	b := []byte(xs() + "12345678")
	le, be := binary.LittleEndian, binary.BigEndian
	ob(le.Uint32(b), be.Uint16(b), le.Uint64(b), le.String())
	le.PutUint32(b, 77)
	b = be.AppendUint16(b, 9)
	b = le.AppendUint64(b, 9)
	b = binary.AppendUvarint(b, 300)
	u, k := binary.Uvarint(b[len(b)-2:])
	ob(u, k)
	var bo binary.ByteOrder = le
	var ao binary.AppendByteOrder = be
	ob(bo.Uint16(b), ao.AppendUint16(nil, 3), binary.NativeEndian.Uint16(b))
}
func H_X01_binary2() {
	b := []byte(xs() + "12345678")
	le, be := binary.LittleEndian, binary.BigEndian
	b, _ = binary.Append(b, le, uint32(5))
	var h struct{ A, B uint16 }
	n, err := binary.Decode(b, be, &h)
	ob(n, err, h)
	n, err = binary.Encode(b, le, h)
	ob(n, err, b)
}
func H_X01_binary3() {
	le := binary.LittleEndian
	var h struct{ A, B uint16 }
	var out bytes.Buffer
	err := binary.Write(&out, le, []uint32{1, 2})
	ob(out.Bytes(), err, binary.Size(h))
	var arr [2]uint16
	err = binary.Read(&out, le, &arr)
	ob(arr, err)
	arr2 := make([]struct{ A, B byte }, 2)
	err = binary.Read(&out, le, arr2)
	ob(arr2, err)
}

type lazy struct {
	once sync.Once
	v    string
}

func (l *lazy) get(s string) string { l.once.Do(func() { l.v = s + "!" }); return l.v }

func H_X01_sync() {
	s := xs()
	l := &lazy{}
	ob(l.get(s), l.get("other"))
	f := sync.OnceValue(func() string { return s + "?" })
	ob(f(), f())
	g := sync.OnceValues(func() (int, error) { return len(s), nil })
	ob(g())
	sync.OnceFunc(func() { ob("once") })()
	var rw sync.RWMutex
	rw.RLock()
	rw.RUnlock()
	rw.RLocker().Lock()
	rw.RLocker().Unlock()
	ob(rw.TryLock())
	rw.Unlock()
	pool := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := pool.Get().(*bytes.Buffer)
	b.WriteString(s)
	ob(b.String())
	b.Reset()
	pool.Put(b)
}
func H_X01_syncmap() {
	s := xs()
	var m sync.Map
	m.Store("a", 1)
	m.Store(s, 2)
	v, ok := m.Load("a")
	ob(v, ok)
	v, ok = m.LoadOrStore("b", 3)
	ob(v, ok)
	n := 0
	m.Range(func(k, v any) bool { n += v.(int); return true })
	ob(n)
	v, ok = m.Swap("a", 9)
	ob(v, ok, m.CompareAndSwap("a", 9, 10), m.CompareAndDelete("a", 10))
	m.Clear()
	v, ok = m.LoadAndDelete("b")
	ob(v, ok)
}
func H_X01_atomic() {
	s := xs()
	var p atomic.Pointer[string]
	ob(p.Load() == nil, p.CompareAndSwap(nil, &s), *p.Load())
	var i atomic.Int64
	i.Add(2)
	ob(i.Load(), i.CompareAndSwap(2, 3), i.Swap(7))
	var bo atomic.Bool
	bo.Store(true)
	ob(bo.Load())
	var va atomic.Value
	va.Store(s)
	ob(va.Load(), va.Swap("q"), va.CompareAndSwap("q", "r"))
}

func H_X01_goroutines() {
	s := xs()
	ch := make(chan string)
	var wg sync.WaitGroup
	for i := range 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ch <- fmt.Sprint(i, s)
		}()
	}
	go func() { wg.Wait(); close(ch) }()
	var got []string
	for x := range ch {
		got = append(got, x)
	}
	slices.Sort(got)
	ob(got)
}
func H_X01_chan() {
	done := make(chan struct{})
	go func() { close(done) }()
	select {
	case <-done:
		ob("done")
	}
	b := make(chan int, 3)
	b <- 1
	b <- 2
	ob(len(b), cap(b), <-b)
	select {
	case v := <-b:
		ob(v)
	default:
		ob("none")
	}
}
func H_X01_ctx() {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	<-ctx.Done()
	ob(ctx.Err())
}
func H_X01_wg() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := 0
	for range 3 {
		wg.Go(func() { mu.Lock(); defer mu.Unlock(); n++ })
	}
	wg.Wait()
	ob(n)
}
func H_X01_pipe() {
	s := xs()
	pr, pw := io.Pipe()
	go func() { io.WriteString(pw, s); pw.Close() }()
	d, err := io.ReadAll(pr)
	ob(d, err)
}

type num interface{ ~int | ~int64 | ~string }
type stack[T any] struct{ items []T }

func (s *stack[T]) push(v T) { s.items = append(s.items, v) }
func (s *stack[T]) pop() (v T, ok bool) {
	if len(s.items) == 0 {
		return
	}
	v = s.items[len(s.items)-1]
	s.items = s.items[:len(s.items)-1]
	return v, true
}
func (s *stack[T]) all() iter.Seq2[int, T] {
	return func(yield func(int, T) bool) {
		for i, v := range s.items {
			if !yield(i, v) {
				return
			}
		}
	}
}
func maxOf[T num](a, b T) T {
	if a > b {
		return a
	}
	return b
}
func mapf[A, B any](in []A, f func(A) B) (out []B) {
	for _, a := range in {
		out = append(out, f(a))
	}
	return
}

func H_X01_generics() {
	s := xs()
	st := &stack[string]{}
	st.push(s)
	st.push("b")
	for i, v := range st.all() {
		if i == 1 {
			break
		}
		ob(i, v)
	}
	v, ok := st.pop()
	ob(v, ok, maxOf(s, "ab"), maxOf(1, 2), mapf([]int{1, 2}, strconv.Itoa), min(3, 2), max("a", s))
	for l := range strings.Lines(s) {
		ob(l)
	}
	for l := range strings.SplitSeq(s, ":") {
		ob(l)
	}
	for l := range strings.FieldsSeq(s) {
		ob(l)
	}
	ob(cmp.Or("", s), cmp.Less(s, "b"))
	var arr [4]int
	for i := range arr {
		arr[i] = i * i
	}
	sl := arr[1:3:4]
	ob(sl, cap(sl), [2]int(sl))
	cnt := 0
outer:
	for i := range 3 {
		for j := range 3 {
			if j == 2 {
				continue outer
			}
			if i == 2 {
				break outer
			}
			cnt++
		}
	}
	i := 0
loop:
	if i < 3 {
		i++
		goto loop
	}
	switch {
	case i == 3:
		fallthrough
	case i == 4:
		ob("ft", cnt)
	default:
		ob("no")
	}
	fn := (*stack[string]).pop
	ob(fn(st))
	m := st.pop
	ob(m())
}
func H_X01_pull() {
	next, stop := iter.Pull(slices.Values([]string{xs(), "x"}))
	a, ok := next()
	ob(a, ok)
	stop()
}

func H_X01_fmt() {
	s := xs()
	ob(fmt.Sprintf("%5s|%-5s|%q|%x|%v|%+v|%#v|%T|%05d|%t|%c|%U|%08b|%.2f|%e|%v", s, s, s, s, s, struct{ A string }{s}, struct{ A string }{s}, s, 42, true, 'x', 'y', 5, 1.25, 3.5, nil))
	ob(fmt.Sprint(s, 1, 2, "a"), fmt.Sprintln(s), string(fmt.Appendf(nil, "%s", s)), string(fmt.Append(nil, s)))
	ob(fmt.Sprintf("%[2]s %[1]d %[3]*[1]d", 1, s, 5), fmt.Sprintf("%v %v", []string{s}, map[string]int{s: 1}))
	ob(fmt.Sprintf("%s", errors.New(s)), fmt.Sprintf("%v", &struct{ X int }{1}))
	ob(fmt.Sprintf("%6.2f|%+d|% d|%x|%X|%o|%#x", 3.14159, 5, 5, 255, "hi", 8, 255))
}
func H_X01_scan() {
	var a int
	var w string
	n, err := fmt.Sscanf("12 ab", "%d %s", &a, &w)
	ob(n, err, a, w)
	n, err = fmt.Sscan("3 x", &a, &w)
	ob(n, err, a, w)
	n, err = fmt.Sscanf(xs(), "a%d", &a)
	ob(n, err, a)
}

func H_X01_regexp() {
	s := xs()
	re := regexp.MustCompile(`^(a*)(?P<n>[:1])?(\s*)`)
	ob(re.FindStringSubmatch(s), re.FindStringSubmatchIndex(s), re.SubexpIndex("n"), re.NumSubexp())
	ob(regexp.MustCompile(`a|b`).ReplaceAllString(s, "<$0>"), regexp.MustCompile(`[ab]`).ReplaceAllStringFunc(s, strings.ToUpper), regexp.MustCompile(`:`).Split(s, -1), re.MatchString(s))
	ob(regexp.MustCompile(`\w+`).FindAllStringIndex(s, -1), regexp.QuoteMeta(s), re.FindStringIndex(s), re.String())
	ob(regexp.MustCompile(`(?i)B(1)`).FindAllStringSubmatchIndex(s, -1), string(re.Expand(nil, []byte("$n"), []byte(s), re.FindSubmatchIndex([]byte(s)))))
	x, err := regexp.Compile("(")
	ob(x == nil, err)
}

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any          { o := *h; n := len(o) - 1; v := o[n]; *h = o[:n]; return v }

func H_X01_cont() {
	s := xs()
	h := &ih{3, 1, 2}
	heap.Init(h)
	heap.Push(h, 0)
	ob(heap.Pop(h), heap.Pop(h))
	l := list.New()
	l.PushBack(s)
	l.PushFront("f")
	for e := l.Front(); e != nil; e = e.Next() {
		ob(e.Value)
	}
}
func H_X01_hash() {
	f := fnv.New32a()
	f.Write([]byte("abc"))
	ob(f.Sum32(), html.EscapeString(xs()+"<"))
}
func H_X01_math() {
	ob(math.MaxInt64, math.Abs(-1.5), math.Min(1, 2), math.Floor(1.5), math.Sqrt(4), math.Pow(2, 3), math.Log2(8))
}
func H_X01_path() {
	s := xs()
	ob(path.Ext("a.po"), path.Join("a", "../b"), path.Base("x/y"), path.Clean("a//b"), filepath.Ext("x.mo"), filepath.Base("/a/"), filepath.Dir("a/b"), filepath.ToSlash("a/b"), filepath.IsAbs("/a"), path.Ext(s+".m"))
	ok, err := path.Match("*.po", s+".po")
	ob(ok, err)
}
func H_X01_utf8() {
	s := xs()
	ob(utf8.ValidString(s), utf8.RuneCountInString(s), utf16.Encode([]rune(s)), utf8.RuneLen('é'), utf8.FullRune([]byte(s)))
	r, n := utf8.DecodeLastRuneInString(s)
	ob(r, n, utf8.AppendRune(nil, 'é'), utf8.ValidRune('a'), utf8.RuneStart(s[0]))
}
func H_X01_unicode() {
	s := xs()
	ob(unicode.Is(unicode.Nd, rune(s[0])), unicode.In(rune(s[0]), unicode.Letter, unicode.Digit), unicode.IsTitle('a'), unicode.To(unicode.UpperCase, rune(s[1])), unicode.ToTitle(rune(s[2])))
}
func H_X01_reflect() {
	s := xs()
	ob(reflect.DeepEqual([]string{s}, []string{"ab:"}), reflect.DeepEqual(map[string]int{s: 1}, map[string]int{"a": 1}))
}
func H_X01_reflect2() {
	s := xs()
	ob(reflect.TypeOf(s).String(), reflect.ValueOf(s).Kind() == reflect.String, reflect.TypeFor[int]().Name())
	v := reflect.ValueOf(&struct{ A int }{3}).Elem()
	ob(v.NumField(), v.Field(0).Int(), v.Type().Field(0).Name)
	sw := reflect.Swapper([]int{1, 2})
	sw(0, 1)
}
func H_X01_unsafe() {
	s := xs()
	ob(unsafe.String(unsafe.StringData(s), 2), string(unsafe.Slice(unsafe.StringData(s), 1)))
}
func H_X01_unique() {
	ob(unique.Make(xs()) == unique.Make("ab:"))
}
func H_X01_time() {
	ob(time.Duration(1500)*time.Millisecond, time.Unix(0, 0).UTC().Format(time.RFC3339), time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC).Weekday())
}
func H_X01_textscan() {
	var sc scanner.Scanner
	sc.Init(strings.NewReader(xs()))
	for t := sc.Scan(); t != scanner.EOF; t = sc.Scan() {
		ob(sc.TokenText(), sc.Pos().Line)
	}
}

func H_X01_deadlock() {
	var mu sync.Mutex
	f := func(n int) {
		mu.Lock()
		if n > 3 {
			return
		}
		mu.Unlock()
	}
	n := sym.Int()
	f(n)
	f(0)
}
func H_X01_unlock() {
	var mu sync.RWMutex
	mu.RLock()
	if xs() == "ab:" {
		mu.RUnlock()
	}
	mu.RUnlock()
}
func H_X01_chandead() {
	c := make(chan int)
	if xs()[0] == 'a' {
		c <- 1
	}
}
