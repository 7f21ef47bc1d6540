From 6e10be378f15dac97d5ae87709616f5ad62efabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 01/31] fix: treat every non-zero operand as true in plural
 expressions

---
 plurals/exp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 80a1bd7..378d68f 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -112,7 +112,7 @@ func (s *myListener) handleExpPrefix(prefix antlr.Token) {
 		s.stack.Push(^num) // go 使用 ^ 表示按位取反
 	case "!":
 		num, _ := s.stack.Pop()
-		if num == _TRUE {
+		if num != _FALSE {
 			s.stack.Push(_FALSE)
 		} else {
 			s.stack.Push(_TRUE)
@@ -254,7 +254,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE && right == _TRUE {
+		if left != _FALSE && right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -264,7 +264,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE || right == _TRUE {
+		if left != _FALSE || right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -276,7 +276,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			left, _  = s.stack.Pop()
 			cond, _  = s.stack.Pop()
 		)
-		if cond == _TRUE {
+		if cond != _FALSE {
 			s.stack.Push(left)
 		} else {
 			s.stack.Push(right)
-- 
2.43.0


From ad5103488f09fdcb4185ad3d3e0c65cc0c708f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 02/31] fix: fall back when the selected plural form was not
 translated

---
 translator/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 81617c4..0c21a7b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -58,7 +58,7 @@ func (file *File) XN64(msgCtxt, msgID, msgIDPlural string, n int64, args ...any)
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
 	index := plural.fn(n)
-	if index < 0 || index >= int(plural.totalForms) || index > len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
+	if index < 0 || index >= int(plural.totalForms) || index >= len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
 		// 超出范围
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
-- 
2.43.0


From a885536277c343a5ed55a99c88342b97dc92ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 03/31] fix: Format must not write into the caller's argument
 slice

---
 f/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/f/format.go b/f/format.go
index 6394180..afe4e02 100644
--- a/f/format.go
+++ b/f/format.go
@@ -17,7 +17,7 @@ func Format(format string, args ...any) string {
 	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
 	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args, "")
+	args = append(args[:length:length], "") // 限制容量，避免写入调用方切片的剩余空间
 	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
 	return fmt.Sprintf(format, args...)
 }
-- 
2.43.0


From 6e1d18ffdf1bd13893bd26158aa4a70e6f5374d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 04/31] fix: Wrapf must not write into the caller's argument
 slice

---
 errors/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index 241e9d8..4aa1bab 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -10,7 +10,7 @@ func Errorf(format string, args ...any) error {
 }
 
 func Wrapf(err error, format string, args ...any) error {
-	args = append(args, err)
+	args = append(args[:len(args):len(args)], err)
 	return fmt.Errorf(format+": %w", args...)
 }
 
-- 
2.43.0


From 5c0497a09c32d5b5e3a8cdb3ef8c92f7b7aa516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 05/31] fix: MostMatchLocale answers for its own translation
 set

---
 translations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translations.go b/translations.go
index 3ab42b2..967a3b1 100644
--- a/translations.go
+++ b/translations.go
@@ -134,8 +134,8 @@ func (ts *Translations) Locales() (locales []string) {
 
 // MostMatchLocale return the most match language 返回最匹配的语言
 func (ts *Translations) MostMatchLocale() string {
-	var supported = Locales()
-	_, index, _ := Match(supported, []string{Locale()})
+	var supported = ts.Locales()
+	_, index, _ := Match(supported, []string{ts.Locale()})
 	return supported[index]
 }
 
-- 
2.43.0


From d269c1cae8451591e75f7b0439dc1c101a328efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 06/31] fix: ignore the encoding suffix when normalising a
 locale name

---
 locale/detect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/locale/detect.go b/locale/detect.go
index 014a218..57882f8 100644
--- a/locale/detect.go
+++ b/locale/detect.go
@@ -2,6 +2,7 @@ package locale
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/Xuanwo/go-locale"
 	"golang.org/x/text/language"
@@ -19,6 +20,10 @@ func GetDefault() string {
 
 // Normalize return ll_CC code
 func Normalize(lang string) string {
+	// 去掉编码和修饰后缀: ll_CC.UTF-8@modifier
+	if index := strings.IndexAny(lang, ".@"); index >= 0 {
+		lang = lang[:index]
+	}
 	return NormalizeTag(language.Make(lang))
 }
 
-- 
2.43.0


From 6d83f697aed97f85e8cc50e346aa96c5204485c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 07/31] fix: ReadPot reports malformed input instead of
 panicking

---
 translator/po.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/translator/po.go b/translator/po.go
index d4d1368..97e44eb 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -33,15 +33,16 @@ func readPo(content []byte, pot bool) (*File, error) {
 	file := new(File)
 	for {
 		entry, err := readEntry(r)
+		eof := errors.Is(err, io.EOF)
+		if err != nil && !eof {
+			return nil, err
+		}
 		if pot || entry.isValid() {
 			file.AddEntry(entry)
 		}
-		if errors.Is(err, io.EOF) {
+		if eof {
 			return file, nil
 		}
-		if err != nil {
-			return nil, err
-		}
 	}
 }
 
-- 
2.43.0


From 0e1749fa636427d4290965856a475494e306ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 08/31] fix: comments at the end of a template are not an entry

---
 translator/po.go     | 4 +++-
 translator/reader.go | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index 97e44eb..beb2f25 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -37,7 +37,7 @@ func readPo(content []byte, pot bool) (*File, error) {
 		if err != nil && !eof {
 			return nil, err
 		}
-		if pot || entry.isValid() {
+		if (pot && r.started) || entry.isValid() { // 末尾只有注释时不是一个条目
 			file.AddEntry(entry)
 		}
 		if eof {
@@ -98,6 +98,7 @@ func readEntry(r *reader) (*Entry, error) {
 		// previousLineState 上一行的状态
 		previousLineState = ""
 	)
+	r.started = false
 	for {
 		line, err := r.nextLine()
 		if err != nil {
@@ -122,6 +123,7 @@ func readEntry(r *reader) (*Entry, error) {
 			entry.MsgCmts = append(entry.MsgCmts, line)
 			continue
 		}
+		r.started = true
 		// ctxt
 		if strings.HasPrefix(line, prefixCtxt) {
 			if previousLineState != "" {
diff --git a/translator/reader.go b/translator/reader.go
index 598f0b0..3444581 100644
--- a/translator/reader.go
+++ b/translator/reader.go
@@ -10,6 +10,7 @@ type reader struct {
 	lines     []string
 	lineNo    int
 	totalLine int
+	started   bool // 当前条目是否已有注释以外的内容
 }
 
 func newReader(lines []string) *reader {
-- 
2.43.0


From 342e86b948e821ecb1e5fe3e0434098e2e3ee8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 09/31] fix: a PO string line that follows no field is an error

---
 translator/po.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/po.go b/translator/po.go
index beb2f25..77ff72a 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -220,6 +220,9 @@ func readEntry(r *reader) (*Entry, error) {
 				entry.MsgStrN[len(entry.MsgStrN)-1] += data
 			case stateStr:
 				entry.MsgStr += data
+			default:
+				return nil, errors.WithSecondaryError(errInvalidEntry,
+					errors.Errorf("string does not follow a field|line %d: %s", r.lineNo, line))
 			}
 		} else {
 			return nil, errors.WithSecondaryError(errInvalidEntry,
-- 
2.43.0


From fe4ff61061919da1a50110f914dc59405eb77236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 10/31] fix: a new header entry replaces the cached header
 fields

---
 translator/entry.go | 2 +-
 translator/file.go  | 1 +
 translator/pot.go   | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/translator/entry.go b/translator/entry.go
index 733b0c7..bc9106a 100644
--- a/translator/entry.go
+++ b/translator/entry.go
@@ -24,7 +24,7 @@ func (e *Entry) Key() string {
 
 // isHeader 返回该条目是否是一个 header 条目
 func (e *Entry) isHeader() bool {
-	return e.MsgID == ""
+	return e.MsgCtxt == "" && e.MsgID == ""
 }
 
 // isValid 是否合法的条目
diff --git a/translator/file.go b/translator/file.go
index 0c21a7b..11c9190 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -85,6 +85,7 @@ func (file *File) AddEntry(e *Entry) {
 	}
 	file.entries[e.Key()] = e
 	if e.isHeader() {
+		file.headers, file.plural = nil, nil // 新的文件头生效
 		file.initHeader()
 		file.initPlural()
 	}
diff --git a/translator/pot.go b/translator/pot.go
index 3490dea..5066752 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -35,7 +35,7 @@ func (f *File) SaveAsPot(w io.Writer) error {
 		writeString(buf, msgid, entry.MsgID)
 
 		if !entry.IsPlural {
-			if entry.MsgID == "" { // header
+			if entry.isHeader() {
 				writeString(buf, msgstr, entry.MsgStr)
 			} else {
 				writeString(buf, msgstr, "")
-- 
2.43.0


From 14c7b1109e36cb5ba479c913ec7378fb67bf798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 11/31] fix: lookups in a catalogue without header write no
 shared state

---
 translator/file.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/translator/file.go b/translator/file.go
index 11c9190..990853a 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -100,23 +100,25 @@ func (file *File) GetHeader(key string) (value string, ok bool) {
 
 func (file *File) initHeader() {
 	if file.headers == nil {
+		headerEntry, ok := file.entries[key("", "")]
+		if !ok {
+			return // 没有文件头时不缓存，查询不写入任何状态
+		}
 		headers := make(map[string]string)
-		if headerEntry, ok := file.entries[key("", "")]; ok {
-			kvs := strings.Split(headerEntry.MsgStr, "\n")
-			for _, kv := range kvs {
-				if kv == "" {
-					continue
-				}
-				find := reHeader.FindAllStringSubmatch(kv, -1)
-				if len(find) != 1 || len(find[0]) != 3 {
-					continue
-				}
-				kv := find[0]
-				k := strings.TrimSpace(kv[1])
-				v := strings.TrimSpace(kv[2])
-				if _, ok := headers[k]; !ok {
-					headers[k] = v
-				}
+		kvs := strings.Split(headerEntry.MsgStr, "\n")
+		for _, kv := range kvs {
+			if kv == "" {
+				continue
+			}
+			find := reHeader.FindAllStringSubmatch(kv, -1)
+			if len(find) != 1 || len(find[0]) != 3 {
+				continue
+			}
+			kv := find[0]
+			k := strings.TrimSpace(kv[1])
+			v := strings.TrimSpace(kv[2])
+			if _, ok := headers[k]; !ok {
+				headers[k] = v
 			}
 		}
 		file.headers = headers
@@ -125,11 +127,18 @@ func (file *File) initHeader() {
 
 func (file *File) getPlural() *plural {
 	file.initPlural()
+	if file.plural == nil {
+		return parsePlural("")
+	}
 	return file.plural
 }
 
 func (file *File) initPlural() {
 	if file.plural == nil {
+		file.initHeader()
+		if file.headers == nil {
+			return
+		}
 		forms, _ := file.GetHeader(HeaderPluralForms)
 		file.plural = parsePlural(forms)
 	}
-- 
2.43.0


From 01d2d34490c3911e88cba06a730475424f8643be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 12/31] fix: sort entries by reference first, unambiguously

---
 translator/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/entry.go b/translator/entry.go
index bc9106a..2c75e4a 100644
--- a/translator/entry.go
+++ b/translator/entry.go
@@ -38,7 +38,7 @@ func (e *Entry) getSortKey() string {
 	if e.isHeader() {
 		return "" // 排在最前
 	}
-	return e.getLineString() + e.Key()
+	return e.getLineString() + nul + e.Key()
 }
 
 // getLineString 如果有行号注释按行号排序 非行号的注释不使用
-- 
2.43.0


From d37b4751df238dd0b7b01e529322525d99a7b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 13/31] fix: write MO ids in ascending order as the format
 requires

---
 translator/mo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 77cba35..615eb96 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 
 	"github.com/youthlin/t/errors"
@@ -218,6 +219,10 @@ func (f *File) SaveAsMo(w io.Writer) error {
 
 	// map 多次迭代顺序不定，先转为数组
 	var entries = f.SortedEntry()
+	// 规范要求 msgID 按字典序排列
+	sort.Slice(entries, func(i, j int) bool {
+		return moMsgID(entries[i]) < moMsgID(entries[j])
+	})
 
 	// pos=O. from here is O.
 	offsetID := offsetO + count*8*2 // 8=length(uint32)+offset(uint32) 2=id table + str table
-- 
2.43.0


From 036ff0b55bbba7694ea5b4e299392618a5f21127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 14/31] fix: check MO string bounds before allocating

---
 translator/mo.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 615eb96..381e3a6 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -158,6 +158,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_id[%d]: %d", i, msgIDMeta[i].OffSet))
 		}
+		if !inFile(content, msgIDMeta[i]) {
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Wrapf(io.ErrUnexpectedEOF, "msg_id[%d] is outside the file", i))
+		}
 		id := make([]byte, msgIDMeta[i].Length) // msg_id 的长度
 		if err := binary.Read(r, bo, &id); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
@@ -169,6 +173,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_str[%d]: %d", i, msgStrMeta[i].OffSet))
 		}
+		if !inFile(content, msgStrMeta[i]) {
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Wrapf(io.ErrUnexpectedEOF, "msg_str[%d] is outside the file", i))
+		}
 		str := make([]byte, msgStrMeta[i].Length) // msg_str 的长度
 		if err := binary.Read(r, bo, &str); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
@@ -196,6 +204,11 @@ func ReadMo(content []byte) (*File, error) {
 	return file, nil
 }
 
+// inFile 字符串是否完整地位于文件中，避免按不可信的长度分配内存
+func inFile(content []byte, lo lenOff) bool {
+	return uint64(lo.OffSet)+uint64(lo.Length) <= uint64(len(content))
+}
+
 // SaveAsMo save as machine object file(.mo)
 //
 //	0: magic number = 0x950412de
-- 
2.43.0


From 1cce6f7c5026fe62ae3b199c6aa1ef597cf3a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 15/31] fix: an unreadable directory must not stop the
 remaining files from loading

---
 translaton.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translaton.go b/translaton.go
index c0a3b3e..855da38 100644
--- a/translaton.go
+++ b/translaton.go
@@ -69,7 +69,7 @@ func (tr *Translation) LoadFS(f fs.FS) bool {
 	fn := func(ext string) func(path string, d fs.DirEntry, err error) error {
 		return func(path string, d fs.DirEntry, err error) error {
 			if err != nil {
-				return err
+				return nil // 跳过无法读取的目录，不影响其他文件
 			}
 			if d != nil && !d.IsDir() {
 				if strings.HasSuffix(d.Name(), ext) { // 这里应该使用 d.Name;
-- 
2.43.0


From b485003787ece03c83a73f7c6a28b7e4ba2d06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 16/31] fix: a catalogue without language does not count as
 loaded

---
 translaton.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/translaton.go b/translaton.go
index 855da38..909ad2d 100644
--- a/translaton.go
+++ b/translaton.go
@@ -5,6 +5,7 @@ import (
 	"io/fs"
 	"strings"
 
+	"github.com/youthlin/t/errors"
 	"github.com/youthlin/t/locale"
 	"github.com/youthlin/t/translator"
 )
@@ -14,6 +15,8 @@ const (
 	extMo = ".mo"
 )
 
+var errNoLanguage = errors.Errorf("no %s header", translator.HeaderLanguage)
+
 // trNoop is a no-op Translation
 var trNoop = NewTranslation("")
 
@@ -115,6 +118,9 @@ func (tr *Translation) LoadPo(content []byte) error {
 	if err != nil {
 		return err
 	}
+	if poFile.Lang() == "" {
+		return errNoLanguage
+	}
 	tr.AddOrReplace(poFile)
 	return nil
 }
@@ -125,6 +131,9 @@ func (tr *Translation) LoadMo(content []byte) error {
 	if err != nil {
 		return err
 	}
+	if moFile.Lang() == "" {
+		return errNoLanguage
+	}
 	tr.AddOrReplace(moFile)
 	return nil
 }
-- 
2.43.0


From aa75a058f66fc0b942057eb28657760721022a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 17/31] fix: a text ending in a bare % must not leak the
 sentinel argument

---
 f/format.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/f/format.go b/f/format.go
index afe4e02..4cfb5da 100644
--- a/f/format.go
+++ b/f/format.go
@@ -1,6 +1,9 @@
 package f
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // Format format a string with args, like fmt.Sprintf,
 // but if args tow many, not prints %!(EXTRA type=value);
@@ -18,8 +21,28 @@ func Format(format string, args ...any) string {
 	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
 	args = append(args[:length:length], "") // 限制容量，避免写入调用方切片的剩余空间
+	tail := ""
+	if index := unfinishedVerb(format); index >= 0 {
+		format, tail = format[:index], "%!(NOVERB)" // 与 fmt.Sprintf 一致
+	}
 	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
-	return fmt.Sprintf(format, args...)
+	return fmt.Sprintf(format, args...) + tail
+}
+
+// unfinishedVerb 返回末尾不完整动词(如 100%)的位置，没有时返回 -1
+func unfinishedVerb(format string) int {
+	for i := 0; i < len(format); i++ {
+		if format[i] != '%' {
+			continue
+		}
+		start := i
+		for i++; i < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[i]) >= 0; i++ {
+		}
+		if i >= len(format) {
+			return start
+		}
+	}
+	return -1
 }
 
 // DefaultPlural 根据 n 选择单数或复数形式。
-- 
2.43.0


From cca41ec89c0a6a7dbac1c51c2dedd4ef4a47cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 18/31] fix: Format keeps Sprintf's meaning whatever the text
 ends in

---
 f/format.go | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/f/format.go b/f/format.go
index 4cfb5da..d1b92bf 100644
--- a/f/format.go
+++ b/f/format.go
@@ -1,9 +1,6 @@
 package f
 
-import (
-	"fmt"
-	"strings"
-)
+import "fmt"
 
 // Format format a string with args, like fmt.Sprintf,
 // but if args tow many, not prints %!(EXTRA type=value);
@@ -17,32 +14,12 @@ func Format(format string, args ...any) string {
 	if length == 0 {
 		return format
 	}
-	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
-	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
+	// 原理：使用索引指定参数位置后，fmt 不再报告多余的参数。
+	// 在最前面加上 %[1]% (输出一个百分号，不消耗参数)，再去掉输出的百分号，这样就没有多余的参数了；
+	// 放在最前面不会与格式化字符串末尾不完整的动词(如 100%)连在一起
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args[:length:length], "") // 限制容量，避免写入调用方切片的剩余空间
-	tail := ""
-	if index := unfinishedVerb(format); index >= 0 {
-		format, tail = format[:index], "%!(NOVERB)" // 与 fmt.Sprintf 一致
-	}
-	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
-	return fmt.Sprintf(format, args...) + tail
-}
-
-// unfinishedVerb 返回末尾不完整动词(如 100%)的位置，没有时返回 -1
-func unfinishedVerb(format string) int {
-	for i := 0; i < len(format); i++ {
-		if format[i] != '%' {
-			continue
-		}
-		start := i
-		for i++; i < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[i]) >= 0; i++ {
-		}
-		if i >= len(format) {
-			return start
-		}
-	}
-	return -1
+	args = append(args[:length:length], "") // 参数不足时使用空白字符串；限制容量，避免写入调用方切片的剩余空间
+	return fmt.Sprintf("%[1]%"+format, args...)[1:]
 }
 
 // DefaultPlural 根据 n 选择单数或复数形式。
-- 
2.43.0


From 5a23cfc0e699438dd2f2f8eb3735f152948f75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 19/31] fix: an EOT byte in a plural id of an MO file is no
 context separator

---
 translator/mo.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/translator/mo.go b/translator/mo.go
index 381e3a6..a2dd13c 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -188,10 +188,6 @@ func ReadMo(content []byte) (*File, error) {
 			MsgID:  string(id),
 			MsgStr: string(str),
 		}
-		// 0x04 分割 msgCtxt 和 msgId
-		if index := strings.Index(entry.MsgID, eot); index >= 0 {
-			entry.MsgCtxt, entry.MsgID = entry.MsgID[:index], entry.MsgID[index+1:]
-		}
 		// 0x00 分割 msgId 和 msgIdPlural
 		if index := strings.Index(entry.MsgID, nul); index >= 0 {
 			entry.MsgID, entry.MsgID2 = entry.MsgID[:index], entry.MsgID[index+1:]
@@ -199,6 +195,10 @@ func ReadMo(content []byte) (*File, error) {
 			entry.MsgStrN = strings.Split(entry.MsgStr, nul)
 			entry.MsgStr = ""
 		}
+		// 0x04 分割 msgCtxt 和 msgId
+		if index := strings.Index(entry.MsgID, eot); index >= 0 {
+			entry.MsgCtxt, entry.MsgID = entry.MsgID[:index], entry.MsgID[index+1:]
+		}
 		file.AddEntry(entry)
 	}
 	return file, nil
-- 
2.43.0


From 0ae00e810fa044d7032fd3c560a0eb4965c4a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 20/31] fix: only double-quoted strings are PO strings

---
 translator/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/util.go b/translator/util.go
index 8800dd2..d0d71b4 100644
--- a/translator/util.go
+++ b/translator/util.go
@@ -14,5 +14,8 @@ func key(ctxt, msgid string) string {
 func removePrefixAndUnquote(line, prefix string) (string, error) {
 	line = strings.TrimPrefix(line, prefix)
 	line = strings.TrimSpace(line)
+	if !strings.HasPrefix(line, `"`) { // strconv.Unquote 还接受单引号和反引号
+		return "", strconv.ErrSyntax
+	}
 	return strconv.Unquote(line)
 }
-- 
2.43.0


From 5ecb578e6e6f93d5b3729c37cfc55f1cf016b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 21/31] fix: a deprecated language code is replaced even next
 to an unknown part

---
 locale/detect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/locale/detect.go b/locale/detect.go
index 57882f8..092e4ad 100644
--- a/locale/detect.go
+++ b/locale/detect.go
@@ -29,6 +29,10 @@ func Normalize(lang string) string {
 
 // NormalizeTag return ll_CC code
 func NormalizeTag(tag language.Tag) string {
+	// language.Make 遇到不认识的部分时不会替换已废弃的语言代码(iw->he)
+	if canonical, err := language.Default.Canonicalize(tag); err == nil {
+		tag = canonical
+	}
 	base, _ := tag.Base()
 	region, _ := tag.Region()
 	return fmt.Sprintf("%v_%v", base, region)
-- 
2.43.0


From ea2255735f7d9da09a74f3226d6bbb9177417eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 22/31] fix: visit the templates of a file in a fixed order

---
 cmd/xtemplate/internal/run.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6bc846b..3e42ba5 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -109,8 +110,10 @@ func resolveOneFile(filename string, ctx *Context) error {
 	if err != nil {
 		return errors.Wrapf(err, t.T("failed to parse file %v"), filename)
 	}
-	// 一个文件可能有多个模板
-	for _, tmpl := range tmpl.Templates() {
+	// 一个文件可能有多个模板；Templates() 的顺序不固定，按名称排序使输出可重现
+	templates := tmpl.Templates()
+	sort.Slice(templates, func(i, j int) bool { return templates[i].Name() < templates[j].Name() })
+	for _, tmpl := range templates {
 		resolveTmpl(filename, ctx, tmpl)
 	}
 	return nil
-- 
2.43.0


From 0a264b62e7082e7f58e9650f6a095d371e5de2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 23/31] fix: extract by the positions the keyword declares,
 contiguous or not

---
 cmd/xtemplate/internal/run.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 3e42ba5..3f1e8f0 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -253,29 +253,24 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
-			argCount := 1 // MsgID 始终需要
-			if kw.MsgCtxt > 0 && kw.MsgCtxt != kw.MsgID {
-				argCount++
-			}
-			if kw.MsgID2 > 0 && kw.MsgID2 != kw.MsgID && kw.MsgID2 != kw.MsgCtxt {
-				argCount++
-			}
-			lastIndex := argCount + nameIndex
-			if lastIndex >= argLength {
-				ctx.debugPrint("  >  >  >  ID=%v too few args", name)
-				continue
-			}
 			argOK := true
 			m := make(map[int]string)
-			for i := nameIndex + 1; i <= lastIndex; i++ {
-				arg := args[i]
-				text, ok := stringLiteral(arg)
+			for _, pos := range []int{kw.MsgCtxt, kw.MsgID, kw.MsgID2} { // 只要求声明的位置是字面量
+				if pos <= 0 {
+					continue
+				}
+				if pos >= argLength-nameIndex {
+					ctx.debugPrint("  >  >  >  ID=%v too few args", name)
+					argOK = false
+					break
+				}
+				text, ok := stringLiteral(args[nameIndex+pos])
 				if !ok {
-					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, i)
+					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, nameIndex+pos)
 					argOK = false
 					break
 				}
-				m[i-nameIndex] = text
+				m[pos] = text
 			}
 			if !argOK {
 				continue
-- 
2.43.0


From dcdd7e2d20e2b33829a74aaacc3bef571080cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 24/31] fix: extract calls inside the parentheses of a chained
 field access

---
 cmd/xtemplate/internal/run.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 3f1e8f0..3542a8c 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -221,6 +221,9 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 				lastID := arg.Ident[len(arg.Ident)-1]
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
 			case *parse.ChainNode:
+				if pipe, ok := arg.Node.(*parse.PipeNode); ok {
+					resolvePipe(filename, line, ctx, pipe) // (T "id").Field
+				}
 				if len(arg.Field) == 0 {
 					continue
 				}
-- 
2.43.0


From 63ea37ba2fca74870617b084722dd063a5f3772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 25/31] fix: an empty msgid must not replace the header of the
 template

---
 cmd/xtemplate/internal/param.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 1a2a7f3..9725030 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -79,6 +79,9 @@ func newCtx(param *Param) (*Context, error) {
 func (ctx *Context) Add(entry *translator.Entry) error {
 	plural := entry.IsPlural
 	key := entry.Key()
+	if entry.MsgCtxt == "" && entry.MsgID == "" { // 空 msgid 保留给文件头
+		return errors.Errorf(t.T("empty msgid is reserved for the header.\nLine    =%v"), entry.MsgCmts)
+	}
 	pre, ok := ctx.entries[key]
 	if ok {
 		if pre.IsPlural != plural {
-- 
2.43.0


From ef2a85d04e240fe0c9d77ac56e0f4f548e2ccf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 26/31] fix: a keyword passed as an argument is not a call

---
 cmd/xtemplate/internal/run.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 3542a8c..6952d42 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -200,6 +200,12 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 			args = append(append([]parse.Node{}, cmd.Args...), pipedArg)
 		}
 		argC := len(args)
+		head := 0 // 只有命令的第一项是被调用的函数，call 例外：它调用自己的第一个参数
+		if argC > 0 {
+			if ident, ok := args[0].(*parse.IdentifierNode); ok && ident.Ident == "call" {
+				head = 1
+			}
+		}
 		for i := 0; i < argC; i++ {
 			arg := args[i]
 			ctx.debugPrint("  >  >  >  Cmd.Arg: %#v", arg)
@@ -207,15 +213,18 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 			case *parse.PipeNode:
 				resolvePipe(filename, line, ctx, arg) // 递归
 			case *parse.IdentifierNode:
+				if i != head {
+					continue
+				}
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), arg.Ident, i, args)
 			case *parse.FieldNode:
-				if len(arg.Ident) == 0 {
+				if i != head || len(arg.Ident) == 0 {
 					continue
 				}
 				lastID := arg.Ident[len(arg.Ident)-1]
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
 			case *parse.VariableNode:
-				if len(arg.Ident) == 0 {
+				if i != head || len(arg.Ident) == 0 {
 					continue
 				}
 				lastID := arg.Ident[len(arg.Ident)-1]
@@ -224,7 +233,7 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 				if pipe, ok := arg.Node.(*parse.PipeNode); ok {
 					resolvePipe(filename, line, ctx, pipe) // (T "id").Field
 				}
-				if len(arg.Field) == 0 {
+				if i != head || len(arg.Field) == 0 {
 					continue
 				}
 				lastID := arg.Field[len(arg.Field)-1]
-- 
2.43.0


From 447549a00974e4c8a6693551d5915e8dcf8f6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 27/31] fix: xtemplate accepts functions whose names have
 letters outside ASCII

---
 cmd/xtemplate/internal/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6952d42..0ea1c83 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -24,7 +24,7 @@ var templateBuiltins = map[string]bool{
 
 // identPattern 匹配模板中所有合法 Go 标识符（字母或下划线开头）。
 // 扫描所有标识符并注册为 noop 函数，比精确匹配函数调用位置更简单可靠。
-var identPattern = regexp.MustCompile(`[a-zA-Z_]\w*`)
+var identPattern = regexp.MustCompile(`[\p{L}_][\p{L}\p{Nd}_]*`)
 
 // scanFuncNames 从模板源码中扫描所有标识符，排除内置关键字，作为候选函数名。
 func scanFuncNames(src string) map[string]bool {
-- 
2.43.0


From e7beef3d57c1ed9cea017e39031845c27443ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 28/31] fix: Plural-Forms may announce ten or more forms

---
 translator/plural.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/plural.go b/translator/plural.go
index b7364f5..eb76c52 100644
--- a/translator/plural.go
+++ b/translator/plural.go
@@ -16,7 +16,7 @@ type plural struct {
 }
 
 var (
-	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d)\s*;\s*plural\s*=\s*(.*)\s*;$`)
+	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*)\s*;$`)
 	invalidPluralFn = func(i int64) int { return -1 }
 )
 
-- 
2.43.0


From 22e2fe5de3f31eb1132483240b460a385567eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 29/31] fix: the final semicolon of Plural-Forms is optional

---
 translator/plural.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/plural.go b/translator/plural.go
index eb76c52..ef105ce 100644
--- a/translator/plural.go
+++ b/translator/plural.go
@@ -16,7 +16,7 @@ type plural struct {
 }
 
 var (
-	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*)\s*;$`)
+	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*?)\s*;?$`)
 	invalidPluralFn = func(i int64) int { return -1 }
 )
 
-- 
2.43.0


From 74ae3e893bed3ad05bf9b81d05e728e10ae09eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 30/31] fix: do not share one placeholder among all missing
 domains

---
 translations.go | 2 +-
 translaton.go   | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/translations.go b/translations.go
index 967a3b1..bb71f58 100644
--- a/translations.go
+++ b/translations.go
@@ -184,7 +184,7 @@ func (ts *Translations) GetOrNoop(domain string) *Translation {
 	if tr, ok := ts.domains[domain]; ok {
 		return tr
 	}
-	return trNoop
+	return NewTranslation("") // 不共享，向其添加翻译不影响其他翻译集
 }
 
 // D return a new Translations with domain
diff --git a/translaton.go b/translaton.go
index 909ad2d..0622064 100644
--- a/translaton.go
+++ b/translaton.go
@@ -17,9 +17,6 @@ const (
 
 var errNoLanguage = errors.Errorf("no %s header", translator.HeaderLanguage)
 
-// trNoop is a no-op Translation
-var trNoop = NewTranslation("")
-
 // Translation can provide different language translation of a domain
 // tr. [翻译域]包含各个语言的翻译
 type Translation struct {
-- 
2.43.0


From 3409ddd8f903feabbd18fab5247c1dc8c0ab7ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:00 +0000
Subject: [PATCH 31/31] fix: report names that templates cannot call instead of
 panicking

---
 cmd/xtemplate/internal/helper.go | 11 +++++++++++
 cmd/xtemplate/internal/param.go  | 17 +++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/cmd/xtemplate/internal/helper.go b/cmd/xtemplate/internal/helper.go
index c7b6bf2..e044651 100644
--- a/cmd/xtemplate/internal/helper.go
+++ b/cmd/xtemplate/internal/helper.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"strings"
+	"unicode"
 
 	"github.com/youthlin/t/translator"
 )
@@ -20,3 +21,13 @@ func key(ctxt, msgid string) string {
 func isGoFormat(e *translator.Entry) bool {
 	return strings.Contains(e.MsgID, "%") || strings.Contains(e.MsgID2, "%")
 }
+
+// isIdent 判断名称能否作为模板函数名。
+func isIdent(name string) bool {
+	for i, r := range name {
+		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+			return false
+		}
+	}
+	return name != ""
+}
diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 9725030..7b2df27 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -54,14 +54,11 @@ func newCtx(param *Param) (*Context, error) {
 	}
 	ctx.Keywords = kw
 	for _, k := range kw {
+		if !isIdent(k.Name) { // 注册非法的名称会 panic
+			return nil, errors.Errorf(t.T("invalid function name: %v"), k.Name)
+		}
 		ctx.Functions[k.Name] = noopFun
 	}
-	wr, err := Writer(param.OutputFile)
-	if err != nil {
-		return nil, err
-	}
-	ctx.Output = wr
-
 	if ctx.Function != "" {
 		fun := strings.Split(ctx.Function, ",")
 		for _, name := range fun {
@@ -69,9 +66,17 @@ func newCtx(param *Param) (*Context, error) {
 			if name == "" {
 				continue
 			}
+			if !isIdent(name) {
+				return nil, errors.Errorf(t.T("invalid function name: %v"), name)
+			}
 			ctx.Functions[name] = noopFun
 		}
 	}
+	wr, err := Writer(param.OutputFile)
+	if err != nil {
+		return nil, err
+	}
+	ctx.Output = wr
 	return ctx, nil
 }
 
-- 
2.43.0

