From df6cdd677f5f465866f37e3687d6f801638f9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 01/42] fix: read Python-style multi-line values of any length
 and report read errors

Continuation lines were recognised in one peek of the read buffer. A value
reaching past the buffer was cut in the middle of a line and the rest parsed
as new lines, and read errors hit while peeking were dropped.
---
 parser.go | 79 ++++++++++++++++---------------------------------------
 1 file changed, 23 insertions(+), 56 deletions(-)

diff --git a/parser.go b/parser.go
index 44fc526..fdbcab2 100644
--- a/parser.go
+++ b/parser.go
@@ -19,7 +19,6 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"regexp"
 	"strconv"
 	"strings"
 	"unicode"
@@ -27,8 +26,6 @@ import (
 
 const minReaderBufferSize = 4096
 
-var pythonMultiline = regexp.MustCompile(`^([\t\f ]+)(.*)`)
-
 type parserOptions struct {
 	IgnoreContinuation          bool
 	IgnoreInlineComment         bool
@@ -225,12 +222,11 @@ func hasSurroundedQuote(in string, quote byte) bool {
 		strings.IndexByte(in[1:], quote) == len(in)-2
 }
 
-func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
-
+func (p *parser) readValue(in []byte) (string, error) {
 	line := strings.TrimLeftFunc(string(in), unicode.IsSpace)
 	if len(line) == 0 {
 		if p.options.AllowPythonMultilineValues && len(in) > 0 && in[len(in)-1] == '\n' {
-			return p.readPythonMultilines(line, bufferSize)
+			return p.readPythonMultilines(line)
 		}
 		return "", nil
 	}
@@ -296,46 +292,38 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 		line = strings.ReplaceAll(line, `\;`, ";")
 		line = strings.ReplaceAll(line, `\#`, "#")
 	} else if p.options.AllowPythonMultilineValues && lastChar == '\n' {
-		return p.readPythonMultilines(line, bufferSize)
+		return p.readPythonMultilines(line)
 	}
 
 	return line, nil
 }
 
-func (p *parser) readPythonMultilines(line string, bufferSize int) (string, error) {
-	parserBufferPeekResult, _ := p.buf.Peek(bufferSize)
-	peekBuffer := bytes.NewBuffer(parserBufferPeekResult)
-
-	for {
-		peekData, peekErr := peekBuffer.ReadBytes('\n')
-		if peekErr != nil && peekErr != io.EOF {
-			p.debug("readPythonMultilines: failed to peek with error: %v", peekErr)
-			return "", peekErr
-		}
-
-		p.debug("readPythonMultilines: parsing %q", string(peekData))
-
-		peekMatches := pythonMultiline.FindStringSubmatch(string(peekData))
-		p.debug("readPythonMultilines: matched %d parts", len(peekMatches))
-		for n, v := range peekMatches {
-			p.debug("   %d: %q", n, v)
+func (p *parser) readPythonMultilines(line string) (string, error) {
+	for !p.isEOF {
+		// The first byte of next line decides whether it belongs to the value.
+		next, err := p.buf.Peek(1)
+		if err == io.EOF {
+			break
+		} else if err != nil {
+			p.debug("readPythonMultilines: failed to peek with error: %v", err)
+			return "", err
 		}
-
-		// Return if not a Python multiline value.
-		if len(peekMatches) != 3 {
-			p.debug("readPythonMultilines: end of value, got: %q", line)
-			return line, nil
+		if next[0] != ' ' && next[0] != '\t' && next[0] != '\f' {
+			break
 		}
 
-		// Advance the parser reader (buffer) in-sync with the peek buffer.
-		_, err := p.buf.Discard(len(peekData))
+		data, err := p.readUntil('\n')
 		if err != nil {
-			p.debug("readPythonMultilines: failed to skip to the end, returning error")
+			p.debug("readPythonMultilines: failed to read with error: %v", err)
 			return "", err
 		}
+		p.debug("readPythonMultilines: parsing %q", string(data))
 
-		line += "\n" + peekMatches[0]
+		line += "\n" + strings.TrimSuffix(string(data), "\n")
 	}
+
+	p.debug("readPythonMultilines: end of value, got: %q", line)
+	return line, nil
 }
 
 // parse parses data through an io.Reader.
@@ -369,27 +357,6 @@ func (f *File) parse(reader io.Reader) (err error) {
 	var line []byte
 	var inUnparseableSection bool
 
-	// NOTE: Iterate and increase `currentPeekSize` until
-	// the size of the parser buffer is found.
-	// TODO(unknwon): When Golang 1.10 is the lowest version supported, replace with `parserBufferSize := p.buf.Size()`.
-	parserBufferSize := 0
-	// NOTE: Peek 4kb at a time.
-	currentPeekSize := minReaderBufferSize
-
-	if f.options.AllowPythonMultilineValues {
-		for {
-			peekBytes, _ := p.buf.Peek(currentPeekSize)
-			peekBytesLength := len(peekBytes)
-
-			if parserBufferSize >= peekBytesLength {
-				break
-			}
-
-			currentPeekSize *= 2
-			parserBufferSize = peekBytesLength
-		}
-	}
-
 	for !p.isEOF {
 		line, err = p.readUntil('\n')
 		if err != nil {
@@ -472,7 +439,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			case IsErrDelimiterNotFound(err):
 				switch {
 				case f.options.AllowBooleanKeys:
-					kname, err := p.readValue(line, parserBufferSize)
+					kname, err := p.readValue(line)
 					if err != nil {
 						return err
 					}
@@ -501,7 +468,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			p.count++
 		}
 
-		value, err := p.readValue(line[offset:], parserBufferSize)
+		value, err := p.readValue(line[offset:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9559d9cd534f23acbc4a9039643e4aac804d5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 02/42] fix: make get-or-create of sections and keys atomic

Section and Key looked a name up and created it in two steps. A value stored
by another goroutine in between was overwritten with an empty string (or got
an empty shadow), and with non-unique sections the name was created twice.
---
 file.go    | 10 ++++++++--
 section.go | 11 ++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/file.go b/file.go
index f8b2240..12dd8b9 100644
--- a/file.go
+++ b/file.go
@@ -81,6 +81,12 @@ func Empty(opts ...LoadOptions) *File {
 
 // NewSection creates a new section.
 func (f *File) NewSection(name string) (*Section, error) {
+	return f.addSection(name, !f.options.AllowNonUniqueSections)
+}
+
+// addSection creates a new section. An existing section with same name is
+// returned as-is when reuse is true.
+func (f *File) addSection(name string, reuse bool) (*Section, error) {
 	if len(name) == 0 {
 		return nil, errors.New("empty section name")
 	}
@@ -94,7 +100,7 @@ func (f *File) NewSection(name string) (*Section, error) {
 		defer f.lock.Unlock()
 	}
 
-	if !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) {
+	if reuse && inSlice(name, f.sectionList) {
 		return f.sections[name][0], nil
 	}
 
@@ -177,7 +183,7 @@ func (f *File) Section(name string) *Section {
 		if name == "" {
 			name = DefaultSection
 		}
-		sec, _ = f.NewSection(name)
+		sec, _ = f.addSection(name, true)
 		return sec
 	}
 	return sec
diff --git a/section.go b/section.go
index a3615d8..7bf47d9 100644
--- a/section.go
+++ b/section.go
@@ -64,6 +64,12 @@ func (s *Section) SetBody(body string) {
 
 // NewKey creates a new key to given section.
 func (s *Section) NewKey(name, val string) (*Key, error) {
+	return s.addKey(name, val, true)
+}
+
+// addKey creates a new key to given section. An existing key with same name is
+// only given the value when overwrite is true, and returned as-is otherwise.
+func (s *Section) addKey(name, val string, overwrite bool) (*Key, error) {
 	if len(name) == 0 {
 		return nil, errors.New("error creating new key: empty key name")
 	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
@@ -76,6 +82,9 @@ func (s *Section) NewKey(name, val string) (*Key, error) {
 	}
 
 	if inSlice(name, s.keyList) {
+		if !overwrite {
+			return s.keys[name], nil
+		}
 		if s.f.options.AllowShadows {
 			if err := s.keys[name].addShadow(val); err != nil {
 				return nil, err
@@ -168,7 +177,7 @@ func (s *Section) Key(name string) *Key {
 	if err != nil {
 		// It's OK here because the only possible error is empty key name,
 		// but if it's empty, this piece of code won't be executed.
-		key, _ = s.NewKey(name, "")
+		key, _ = s.addKey(name, "", false)
 		return key
 	}
 	return key
-- 
2.43.0


From 2aa2692feab4e303afbfdd9fa5385c77504bb3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 03/42] fix: hold the lock while listing sections and keys

SectionStrings, ChildSections, KeyStrings and Keys read the lists without the
lock other goroutines change them under, and Keys could re-create a key that
was deleted meanwhile.
---
 file.go    |  5 +++++
 section.go | 17 ++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 12dd8b9..a1fb455 100644
--- a/file.go
+++ b/file.go
@@ -223,6 +223,11 @@ func (f *File) ChildSections(name string) []*Section {
 
 // SectionStrings returns list of section names.
 func (f *File) SectionStrings() []string {
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	list := make([]string, len(f.sectionList))
 	copy(list, f.sectionList)
 	return list
diff --git a/section.go b/section.go
index 7bf47d9..7229bc1 100644
--- a/section.go
+++ b/section.go
@@ -185,9 +185,14 @@ func (s *Section) Key(name string) *Key {
 
 // Keys returns list of keys of section.
 func (s *Section) Keys() []*Key {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	keys := make([]*Key, len(s.keyList))
 	for i := range s.keyList {
-		keys[i] = s.Key(s.keyList[i])
+		keys[i] = s.keys[s.keyList[i]]
 	}
 	return keys
 }
@@ -214,6 +219,11 @@ func (s *Section) ParentKeys() []*Key {
 
 // KeyStrings returns list of key names of section.
 func (s *Section) KeyStrings() []string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	list := make([]string, len(s.keyList))
 	copy(list, s.keyList)
 	return list
@@ -254,6 +264,11 @@ func (s *Section) DeleteKey(name string) {
 // For example, "[parent.child1]" and "[parent.child12]" are child sections
 // of section "[parent]".
 func (s *Section) ChildSections() []*Section {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
 	for _, name := range s.f.sectionList {
-- 
2.43.0


From 451fcb269e42e8e48a32213e2c2274084d478448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 04/42] fix: list each non-unique child section once

Every occurrence of a repeated child section added all of its namesakes.
---
 section.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/section.go b/section.go
index 7229bc1..3f4cba6 100644
--- a/section.go
+++ b/section.go
@@ -271,9 +271,9 @@ func (s *Section) ChildSections() []*Section {
 
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
-	for _, name := range s.f.sectionList {
+	for i, name := range s.f.sectionList {
 		if strings.HasPrefix(name, prefix) {
-			children = append(children, s.f.sections[name]...)
+			children = append(children, s.f.sections[name][s.f.sectionIndexes[i]])
 		}
 	}
 	return children
-- 
2.43.0


From e53c259d3845cab25b47a2661535dea243956421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 05/42] fix: delete keys case-insensitively when keys are
 insensitive

---
 section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/section.go b/section.go
index 3f4cba6..8f1bd97 100644
--- a/section.go
+++ b/section.go
@@ -245,6 +245,10 @@ func (s *Section) KeysHash() map[string]string {
 
 // DeleteKey deletes a key from section.
 func (s *Section) DeleteKey(name string) {
+	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
 	if s.f.BlockMode {
 		s.f.lock.Lock()
 		defer s.f.lock.Unlock()
-- 
2.43.0


From e38e98bb4cc95916d55957a8e83499f6b630f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 06/42] fix: lowercase the default section name like any other

With insensitive sections every lookup uses the lowercase name, so a section
created as DEFAULT, by a header or after deletion, could never be found.
---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index a1fb455..1ce9773 100644
--- a/file.go
+++ b/file.go
@@ -91,7 +91,7 @@ func (f *File) addSection(name string, reuse bool) (*Section, error) {
 		return nil, errors.New("empty section name")
 	}
 
-	if (f.options.Insensitive || f.options.InsensitiveSections) && name != DefaultSection {
+	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(name)
 	}
 
-- 
2.43.0


From 837f22f708d6dbfdb5fedd7afe71203afc502157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 07/42] fix: keep lists returned by SectionsByName intact on
 deletion

DeleteSectionWithIndex shifted the array that earlier callers still iterate.
---
 file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 1ce9773..fe44a99 100644
--- a/file.go
+++ b/file.go
@@ -281,7 +281,10 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 			if len(f.sections[name]) <= 1 {
 				delete(f.sections, name) // The last one in the map
 			} else {
-				f.sections[name] = append(f.sections[name][:index], f.sections[name][index+1:]...)
+				// Lists returned by SectionsByName share the old array, leave it as-is.
+				secs := make([]*Section, 0, len(f.sections[name])-1)
+				secs = append(secs, f.sections[name][:index]...)
+				f.sections[name] = append(secs, f.sections[name][index+1:]...)
 			}
 
 			// Fix section lists
-- 
2.43.0


From da16e99bab982ae11a7d61bed95777bf0c2b915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 08/42] fix: do not bring deleted keys back into KeysHash

SetValue on a key obtained before its deletion listed the name again.
---
 key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index a19d9f3..e6afac0 100644
--- a/key.go
+++ b/key.go
@@ -833,5 +833,8 @@ func (k *Key) SetValue(v string) {
 	}
 
 	k.value = v
-	k.s.keysHash[k.name] = v
+	// The key may have been deleted or replaced since the caller got it.
+	if k.s.keys[k.name] == k {
+		k.s.keysHash[k.name] = v
+	}
 }
-- 
2.43.0


From bbf5d7911ca82b4c0ac810a61b329602794b93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 09/42] fix: store defaults of Must readers like SetValue does

They changed the value without the lock, could overwrite a value set by
another goroutine after the read, and left KeysHash behind.
---
 key.go | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/key.go b/key.go
index e6afac0..6df08c9 100644
--- a/key.go
+++ b/key.go
@@ -248,11 +248,25 @@ func (k *Key) Time() (time.Time, error) {
 	return k.TimeFormat(time.RFC3339)
 }
 
+// setDefault changes key value to the default, unless it is no longer the raw
+// value the default was chosen for.
+func (k *Key) setDefault(raw, defaultVal string) {
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
+
+	if k.value == raw {
+		k.setValue(defaultVal)
+	}
+}
+
 // MustString returns default value if key value is empty.
 func (k *Key) MustString(defaultVal string) string {
+	raw := k.Value()
 	val := k.String()
 	if len(val) == 0 {
-		k.value = defaultVal
+		k.setDefault(raw, defaultVal)
 		return defaultVal
 	}
 	return val
@@ -261,9 +275,10 @@ func (k *Key) MustString(defaultVal string) string {
 // MustBool always returns value without error,
 // it returns false if error occurs.
 func (k *Key) MustBool(defaultVal ...bool) bool {
+	raw := k.Value()
 	val, err := k.Bool()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatBool(defaultVal[0])
+		k.setDefault(raw, strconv.FormatBool(defaultVal[0]))
 		return defaultVal[0]
 	}
 	return val
@@ -272,9 +287,10 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 // MustFloat64 always returns value without error,
 // it returns 0.0 if error occurs.
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
+	raw := k.Value()
 	val, err := k.Float64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatFloat(defaultVal[0], 'f', -1, 64)
+		k.setDefault(raw, strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
 	return val
@@ -283,9 +299,10 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 // MustInt always returns value without error,
 // it returns 0 if error occurs.
 func (k *Key) MustInt(defaultVal ...int) int {
+	raw := k.Value()
 	val, err := k.Int()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(int64(defaultVal[0]), 10)
+		k.setDefault(raw, strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -294,9 +311,10 @@ func (k *Key) MustInt(defaultVal ...int) int {
 // MustInt64 always returns value without error,
 // it returns 0 if error occurs.
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
+	raw := k.Value()
 	val, err := k.Int64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(defaultVal[0], 10)
+		k.setDefault(raw, strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -305,9 +323,10 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 // MustUint always returns value without error,
 // it returns 0 if error occurs.
 func (k *Key) MustUint(defaultVal ...uint) uint {
+	raw := k.Value()
 	val, err := k.Uint()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(uint64(defaultVal[0]), 10)
+		k.setDefault(raw, strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -316,9 +335,10 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 // MustUint64 always returns value without error,
 // it returns 0 if error occurs.
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
+	raw := k.Value()
 	val, err := k.Uint64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(defaultVal[0], 10)
+		k.setDefault(raw, strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -327,9 +347,10 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 // MustDuration always returns value without error,
 // it returns zero value if error occurs.
 func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
+	raw := k.Value()
 	val, err := k.Duration()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].String()
+		k.setDefault(raw, defaultVal[0].String())
 		return defaultVal[0]
 	}
 	return val
@@ -338,9 +359,10 @@ func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 // MustTimeFormat always parses with given format and returns value without error,
 // it returns zero value if error occurs.
 func (k *Key) MustTimeFormat(format string, defaultVal ...time.Time) time.Time {
+	raw := k.Value()
 	val, err := k.TimeFormat(format)
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].Format(format)
+		k.setDefault(raw, defaultVal[0].Format(format))
 		return defaultVal[0]
 	}
 	return val
@@ -832,6 +854,10 @@ func (k *Key) SetValue(v string) {
 		defer k.s.f.lock.Unlock()
 	}
 
+	k.setValue(v)
+}
+
+func (k *Key) setValue(v string) {
 	k.value = v
 	// The key may have been deleted or replaced since the caller got it.
 	if k.s.keys[k.name] == k {
-- 
2.43.0


From d5a6d2f56d272ed28ad4d5cc6988f82d7e47ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 10/42] fix: hold the lock while reading values and adding
 shadow or nested values

SetValue and NewKey change these under the lock, but they were read and
extended without it.
---
 key.go    | 33 +++++++++++++++++++++++++++++++--
 parser.go |  2 +-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/key.go b/key.go
index 6df08c9..e3e6b9d 100644
--- a/key.go
+++ b/key.go
@@ -77,6 +77,11 @@ func (k *Key) AddShadow(val string) error {
 	if !k.s.f.options.AllowShadows {
 		return errors.New("shadow key is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
 	return k.addShadow(val)
 }
 
@@ -94,6 +99,11 @@ func (k *Key) AddNestedValue(val string) error {
 	if !k.s.f.options.AllowNestedValues {
 		return errors.New("nested value is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
 	return k.addNestedValue(val)
 }
 
@@ -107,12 +117,26 @@ func (k *Key) Name() string {
 
 // Value returns raw value of key for performance purpose.
 func (k *Key) Value() string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return k.value
 }
 
 // ValueWithShadows returns raw values of key and its shadows if any. Shadow
 // keys with empty values are ignored from the returned list.
 func (k *Key) ValueWithShadows() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
+	return k.valueWithShadows()
+}
+
+func (k *Key) valueWithShadows() []string {
 	if len(k.shadows) == 0 {
 		if k.value == "" {
 			return []string{}
@@ -135,6 +159,11 @@ func (k *Key) ValueWithShadows() []string {
 // NestedValues returns nested values stored in the key.
 // It is possible returned value is nil if no nested values stored in the key.
 func (k *Key) NestedValues() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return k.nestedValues
 }
 
@@ -170,14 +199,14 @@ func (k *Key) transformValue(val string) string {
 		}
 
 		// Substitute by new value and take off leading '%(' and trailing ')s'.
-		val = strings.Replace(val, vr, nk.value, -1)
+		val = strings.Replace(val, vr, nk.Value(), -1)
 	}
 	return val
 }
 
 // String returns string representation of value.
 func (k *Key) String() string {
-	return k.transformValue(k.value)
+	return k.transformValue(k.Value())
 }
 
 // Validate accepts a validate function which can
diff --git a/parser.go b/parser.go
index fdbcab2..4d1289e 100644
--- a/parser.go
+++ b/parser.go
@@ -366,7 +366,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 		if f.options.AllowNestedValues &&
 			isLastValueEmpty && len(line) > 0 {
 			if line[0] == ' ' || line[0] == '\t' {
-				err = lastRegularKey.addNestedValue(string(bytes.TrimSpace(line)))
+				err = lastRegularKey.AddNestedValue(string(bytes.TrimSpace(line)))
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From b7adf1e835710dcc6c656357d82885a3f63b1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 11/42] fix: render the file under the lock

Saving while another goroutine changed the file could mix states, re-create
deleted sections and keys, or index past the end of the section list.
---
 file.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/file.go b/file.go
index fe44a99..7965a71 100644
--- a/file.go
+++ b/file.go
@@ -354,11 +354,16 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		equalSign = fmt.Sprintf(" %s ", f.options.KeyValueDelimiterOnWrite)
 	}
 
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	// Use buffer to make sure target is safe until finish encoding.
 	buf := bytes.NewBuffer(nil)
 	lastSectionIdx := len(f.sectionList) - 1
 	for i, sname := range f.sectionList {
-		sec := f.SectionWithIndex(sname, f.sectionIndexes[i])
+		sec := f.sections[sname][f.sectionIndexes[i]]
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
@@ -424,7 +429,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 
 	KeyList:
 		for _, kname := range sec.keyList {
-			key := sec.Key(kname)
+			key := sec.keys[kname]
 			if len(key.Comment) > 0 {
 				if len(indent) > 0 && sname != DefaultSection {
 					buf.WriteString(indent)
@@ -487,7 +492,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return false, nil
 			}
 
-			shadows := key.ValueWithShadows()
+			shadows := key.valueWithShadows()
 			if len(shadows) == 0 {
 				if _, err := writeKeyValue(""); err != nil {
 					return nil, err
-- 
2.43.0


From a2f9854b94f2744d348a85e5cd6c50dc2852a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 12/42] fix: hold the lock while setting comments, raw bodies
 and key kinds

A save or another reader of these running next to a reload, NewRawSection,
NewBooleanKey or SetBody raced with them.
---
 file.go    | 16 ++++++++++++++--
 parser.go  | 20 ++++++++++++++------
 section.go | 18 +++++++++++++-----
 3 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/file.go b/file.go
index 7965a71..f8e6bd1 100644
--- a/file.go
+++ b/file.go
@@ -79,6 +79,16 @@ func Empty(opts ...LoadOptions) *File {
 	return f
 }
 
+// update runs given function, under the lock when it is in use.
+func (f *File) update(fn func()) {
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
+	}
+
+	fn()
+}
+
 // NewSection creates a new section.
 func (f *File) NewSection(name string) (*Section, error) {
 	return f.addSection(name, !f.options.AllowNonUniqueSections)
@@ -123,8 +133,10 @@ func (f *File) NewRawSection(name, body string) (*Section, error) {
 		return nil, err
 	}
 
-	section.isRawSection = true
-	section.rawBody = body
+	f.update(func() {
+		section.isRawSection = true
+		section.rawBody = body
+	})
 	return section, nil
 }
 
diff --git a/parser.go b/parser.go
index 4d1289e..da47070 100644
--- a/parser.go
+++ b/parser.go
@@ -407,7 +407,9 @@ func (f *File) parse(reader io.Reader) (err error) {
 				p.comment.Write(comment)
 			}
 
-			section.Comment = strings.TrimSpace(p.comment.String())
+			f.update(func() {
+				section.Comment = strings.TrimSpace(p.comment.String())
+			})
 
 			// Reset auto-counter and comments
 			p.comment.Reset()
@@ -427,8 +429,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 		}
 
 		if inUnparseableSection {
-			section.isRawSection = true
-			section.rawBody += string(line)
+			f.update(func() {
+				section.isRawSection = true
+				section.rawBody += string(line)
+			})
 			continue
 		}
 
@@ -447,7 +451,9 @@ func (f *File) parse(reader io.Reader) (err error) {
 					if err != nil {
 						return err
 					}
-					key.Comment = strings.TrimSpace(p.comment.String())
+					f.update(func() {
+						key.Comment = strings.TrimSpace(p.comment.String())
+					})
 					p.comment.Reset()
 					continue
 
@@ -478,8 +484,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 		if err != nil {
 			return err
 		}
-		key.isAutoIncrement = isAutoIncr
-		key.Comment = strings.TrimSpace(p.comment.String())
+		f.update(func() {
+			key.isAutoIncrement = isAutoIncr
+			key.Comment = strings.TrimSpace(p.comment.String())
+		})
 		p.comment.Reset()
 		lastRegularKey = key
 	}
diff --git a/section.go b/section.go
index 8f1bd97..2078cf3 100644
--- a/section.go
+++ b/section.go
@@ -51,15 +51,21 @@ func (s *Section) Name() string {
 // Body returns rawBody of Section if the section was marked as unparseable.
 // It still follows the other rules of the INI format surrounding leading/trailing whitespace.
 func (s *Section) Body() string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	return strings.TrimSpace(s.rawBody)
 }
 
 // SetBody updates body content only if section is raw.
 func (s *Section) SetBody(body string) {
-	if !s.isRawSection {
-		return
-	}
-	s.rawBody = body
+	s.f.update(func() {
+		if s.isRawSection {
+			s.rawBody = body
+		}
+	})
 }
 
 // NewKey creates a new key to given section.
@@ -109,7 +115,9 @@ func (s *Section) NewBooleanKey(name string) (*Key, error) {
 		return nil, err
 	}
 
-	key.isBooleanType = true
+	s.f.update(func() {
+		key.isBooleanType = true
+	})
 	return key, nil
 }
 
-- 
2.43.0


From 912cc5686edd1f329b20b43a7d4131d3cee6bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 13/42] fix: save comments containing blank lines

Writing a file with such a section or key comment panicked.
---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index f8e6bd1..ad7efbe 100644
--- a/file.go
+++ b/file.go
@@ -380,7 +380,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
 			for i := range lines {
-				if lines[i][0] != '#' && lines[i][0] != ';' {
+				if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 					lines[i] = "; " + lines[i]
 				} else {
 					lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
@@ -450,7 +450,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				// Support multiline comments
 				lines := strings.Split(key.Comment, LineBreak)
 				for i := range lines {
-					if lines[i][0] != '#' && lines[i][0] != ';' {
+					if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
 					} else {
 						lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
-- 
2.43.0


From 9186908ed2cbeab3466d301117b6012b65b8c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 14/42] fix: quote values on save that the parser would read
 back differently

A trailing backslash joined the next line, surrounding quotes were stripped, a
leading run of three double quotes opened a multi-line value, and the double
quotes put around blanks were kept when the value contained one itself.
---
 file.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/file.go b/file.go
index ad7efbe..c82b651 100644
--- a/file.go
+++ b/file.go
@@ -359,6 +359,23 @@ func (f *File) Append(source interface{}, others ...interface{}) error {
 	return f.Reload()
 }
 
+// isAlteredByParser returns true if the parser would not read given single-line
+// value back as it is, neither bare nor (with spaces around) in double quotes.
+func (f *File) isAlteredByParser(val string) bool {
+	if len(strings.TrimSpace(val)) != len(val) {
+		return f.options.PreserveSurroundedQuote || strings.Contains(val, `"`)
+	}
+
+	switch {
+	case !f.options.IgnoreContinuation && strings.HasSuffix(val, `\`):
+		return true
+	case strings.HasPrefix(val, `"""`), f.options.UnescapeValueDoubleQuotes && strings.HasPrefix(val, `"`):
+		return true
+	}
+	return !f.options.PreserveSurroundedQuote &&
+		(hasSurroundedQuote(val, '\'') || hasSurroundedQuote(val, '"'))
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -495,6 +512,8 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					val = `"""` + val + `"""`
 				} else if !f.options.IgnoreInlineComment && strings.ContainsAny(val, "#;") {
 					val = "`" + val + "`"
+				} else if f.isAlteredByParser(val) {
+					val = "`" + val + "`"
 				} else if len(strings.TrimSpace(val)) != len(val) {
 					val = `"` + val + `"`
 				}
-- 
2.43.0


From bd3fee452715b3e35b7b8cb826b4688f9b5280ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 15/42] fix: map durations to unsigned and integers to duration
 pointers

A value such as 5s for an unsigned field, or a plain integer for a
*time.Duration field, panicked.
---
 struct.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/struct.go b/struct.go
index a486b2f..cce57d8 100644
--- a/struct.go
+++ b/struct.go
@@ -183,11 +183,17 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if vt.Name() == "Duration" {
 			durationVal, err := key.Duration()
 			if err != nil {
-				if intVal, err := key.Int64(); err == nil {
+				intVal, intErr := key.Int64()
+				if intErr != nil {
+					return wrapStrictError(err, isStrict)
+				}
+				if isPtr {
+					durationVal = time.Duration(intVal)
+					field.Set(reflect.ValueOf(&durationVal))
+				} else {
 					field.SetInt(intVal)
-					return nil
 				}
-				return wrapStrictError(err, isStrict)
+				return nil
 			}
 			if isPtr {
 				field.Set(reflect.ValueOf(&durationVal))
@@ -210,20 +216,16 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		var uintVal uint64
 		durationVal, err := key.Duration()
 		// Skip zero value
-		if err == nil && uint64(durationVal) > 0 {
-			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else {
-				field.Set(reflect.ValueOf(durationVal))
+		if err == nil && durationVal > 0 {
+			uintVal = uint64(durationVal)
+		} else {
+			uintVal, err = key.Uint64()
+			if err != nil {
+				return wrapStrictError(err, isStrict)
 			}
-			return nil
-		}
-
-		uintVal, err := key.Uint64()
-		if err != nil {
-			return wrapStrictError(err, isStrict)
 		}
 		if isPtr {
 			pv := reflect.New(t.Elem())
-- 
2.43.0


From 8e1c79284826c6fc41edc717e0f33e83425ef8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 16/42] fix: map lists to slices of named types

Mapping a list to a field such as []time.Duration panicked.
---
 struct.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index cce57d8..f604098 100644
--- a/struct.go
+++ b/struct.go
@@ -123,19 +123,19 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	for i := 0; i < numVals; i++ {
 		switch sliceOf {
 		case reflect.String:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]))
+			slice.Index(i).SetString(vals.([]string)[i])
 		case reflect.Int:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]))
+			slice.Index(i).SetInt(int64(vals.([]int)[i]))
 		case reflect.Int64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]))
+			slice.Index(i).SetInt(vals.([]int64)[i])
 		case reflect.Uint:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]))
+			slice.Index(i).SetUint(uint64(vals.([]uint)[i]))
 		case reflect.Uint64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]))
+			slice.Index(i).SetUint(vals.([]uint64)[i])
 		case reflect.Float64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]))
+			slice.Index(i).SetFloat(vals.([]float64)[i])
 		case reflect.Bool:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]))
+			slice.Index(i).SetBool(vals.([]bool)[i])
 		case reflectTime:
 			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]))
 		}
-- 
2.43.0


From 847fb4de4159431a7795bd416b8b39b9a219409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:26 +0000
Subject: [PATCH 17/42] fix: reflect nil struct pointers and time pointers

A nil pointer to a struct panicked, and a *time.Time was written as an empty
section and so lost.
---
 struct.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index f604098..292aa6d 100644
--- a/struct.go
+++ b/struct.go
@@ -608,6 +608,11 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
+		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem().Name() != "Time"
+		if isStructPtr && field.IsNil() {
+			continue
+		}
+
 		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
 			if err := s.reflectFrom(field); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
@@ -615,7 +620,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
+		if isStructPtr ||
 			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
-- 
2.43.0


From e92d5b5aeebc529d0caf9a6bd758029d6e2de1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:27 +0000
Subject: [PATCH 18/42] fix: keep comment and key hash when reflecting a slice
 to shadow keys

The key was replaced as a whole, which lost the comment just set from the
field's tag and left KeysHash with the old value.
---
 struct.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 292aa6d..f5986f4 100644
--- a/struct.go
+++ b/struct.go
@@ -492,7 +492,12 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 				_ = keyWithShadows.AddShadow(val)
 			}
 		}
-		*key = *keyWithShadows
+		key.SetValue(keyWithShadows.value)
+		key.s.f.update(func() {
+			key.isAutoIncrement = false
+			key.isBooleanType = false
+			key.shadows = keyWithShadows.shadows
+		})
 		return nil
 	}
 
-- 
2.43.0


From b1cf3985308c1eebda1fbe2102fec6e9fe6dc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 19/42] fix: map to pointers to named string, bool and duration
 types

---
 struct.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/struct.go b/struct.go
index f5986f4..57f6a45 100644
--- a/struct.go
+++ b/struct.go
@@ -164,7 +164,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	case reflect.String:
 		stringVal := key.String()
 		if isPtr {
-			field.Set(reflect.ValueOf(&stringVal))
+			pv := reflect.New(vt)
+			pv.Elem().SetString(stringVal)
+			field.Set(pv)
 		} else if len(stringVal) > 0 {
 			field.SetString(key.String())
 		}
@@ -174,7 +176,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 			return wrapStrictError(err, isStrict)
 		}
 		if isPtr {
-			field.Set(reflect.ValueOf(&boolVal))
+			pv := reflect.New(vt)
+			pv.Elem().SetBool(boolVal)
+			field.Set(pv)
 		} else {
 			field.SetBool(boolVal)
 		}
@@ -188,17 +192,20 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 					return wrapStrictError(err, isStrict)
 				}
 				if isPtr {
-					durationVal = time.Duration(intVal)
-					field.Set(reflect.ValueOf(&durationVal))
+					pv := reflect.New(vt)
+					pv.Elem().SetInt(intVal)
+					field.Set(pv)
 				} else {
 					field.SetInt(intVal)
 				}
 				return nil
 			}
 			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
+				pv := reflect.New(vt)
+				pv.Elem().SetInt(int64(durationVal))
+				field.Set(pv)
 			} else if int64(durationVal) > 0 {
-				field.Set(reflect.ValueOf(durationVal))
+				field.SetInt(int64(durationVal))
 			}
 			return nil
 		}
-- 
2.43.0


From 0dd1510e3ef7e046e7b3fefe71710923cb3ebd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 20/42] fix: reject keys for struct fields that are not times
 instead of panicking

---
 struct.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 57f6a45..8113613 100644
--- a/struct.go
+++ b/struct.go
@@ -75,7 +75,10 @@ func parseDelim(actual string) string {
 	return ","
 }
 
-var reflectTime = reflect.TypeOf(time.Now()).Kind()
+var (
+	timeType    = reflect.TypeOf(time.Time{})
+	reflectTime = timeType.Kind()
+)
 
 // setSliceWithProperType sets proper values to slice based on its type.
 func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow, isStrict bool) error {
@@ -111,6 +114,9 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.Bool:
 		vals, err = key.parseBools(strs, true, false)
 	case reflectTime:
+		if !timeType.ConvertibleTo(field.Type().Elem()) {
+			return fmt.Errorf("unsupported type '[]%s'", sliceOf)
+		}
 		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
@@ -137,7 +143,7 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 		case reflect.Bool:
 			slice.Index(i).SetBool(vals.([]bool)[i])
 		case reflectTime:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]).Convert(field.Type().Elem()))
 		}
 	}
 	field.Set(slice)
@@ -259,10 +265,15 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
+		if !timeType.ConvertibleTo(vt) {
+			return fmt.Errorf("unsupported type %q", t)
+		}
 		if isPtr {
-			field.Set(reflect.ValueOf(&timeVal))
+			pv := reflect.New(vt)
+			pv.Elem().Set(reflect.ValueOf(timeVal).Convert(vt))
+			field.Set(pv)
 		} else {
-			field.Set(reflect.ValueOf(timeVal))
+			field.Set(reflect.ValueOf(timeVal).Convert(vt))
 		}
 	case reflect.Slice:
 		return setSliceWithProperType(key, field, delim, allowShadow, isStrict)
-- 
2.43.0


From 094d096581917c175cb4360fa4cde259004589ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 21/42] fix: map repeated sections to a slice of struct
 pointers

---
 struct.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 8113613..eaaf4ab 100644
--- a/struct.go
+++ b/struct.go
@@ -386,13 +386,21 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 	}
 
 	typ := val.Type().Elem()
+	isPtr := typ.Kind() == reflect.Ptr
+	if isPtr {
+		typ = typ.Elem()
+	}
 	for i, sec := range secs {
 		elem := reflect.New(typ)
 		if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
 		}
 
-		val = reflect.Append(val, elem.Elem())
+		if isPtr {
+			val = reflect.Append(val, elem)
+		} else {
+			val = reflect.Append(val, elem.Elem())
+		}
 	}
 	return val, nil
 }
-- 
2.43.0


From eb175a9ccc4ea5318f08a8780b15e56f24e47153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 22/42] fix: split lists at delimiters with multi-byte
 characters

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index e3e6b9d..7fa5131 100644
--- a/key.go
+++ b/key.go
@@ -562,7 +562,7 @@ func (k *Key) Strings(delim string) []string {
 			if runes[idx] == '\\' {
 				escape = true
 			} else if strings.HasPrefix(string(runes[idx:]), delim) {
-				idx += len(delim) - 1
+				idx += len([]rune(delim)) - 1
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
 			} else {
-- 
2.43.0


From ae2f2036d4c4f13236393c3a5b87ca19bad2f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 23/42] fix: reject slices of structs that are not times when
 reflecting

---
 struct.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index eaaf4ab..6c0e97c 100644
--- a/struct.go
+++ b/struct.go
@@ -507,7 +507,10 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 			case reflect.Bool:
 				val = fmt.Sprint(slice.Index(i).Bool())
 			case reflectTime:
-				val = slice.Index(i).Interface().(time.Time).Format(time.RFC3339)
+				if !field.Type().Elem().ConvertibleTo(timeType) {
+					return fmt.Errorf("unsupported type '[]%s'", sliceOf)
+				}
+				val = slice.Index(i).Convert(timeType).Interface().(time.Time).Format(time.RFC3339)
 			default:
 				return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 			}
@@ -541,7 +544,10 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		case reflect.Bool:
 			buf.WriteString(fmt.Sprint(slice.Index(i).Bool()))
 		case reflectTime:
-			buf.WriteString(slice.Index(i).Interface().(time.Time).Format(time.RFC3339))
+			if !field.Type().Elem().ConvertibleTo(timeType) {
+				return fmt.Errorf("unsupported type '[]%s'", sliceOf)
+			}
+			buf.WriteString(slice.Index(i).Convert(timeType).Interface().(time.Time).Format(time.RFC3339))
 		default:
 			return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 		}
@@ -565,7 +571,10 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 	case reflect.Float32, reflect.Float64:
 		key.SetValue(fmt.Sprint(field.Float()))
 	case reflectTime:
-		key.SetValue(fmt.Sprint(field.Interface().(time.Time).Format(time.RFC3339)))
+		if !t.ConvertibleTo(timeType) {
+			return fmt.Errorf("unsupported type %q", t)
+		}
+		key.SetValue(fmt.Sprint(field.Convert(timeType).Interface().(time.Time).Format(time.RFC3339)))
 	case reflect.Slice:
 		return reflectSliceWithProperType(key, field, delim, allowShadow)
 	case reflect.Ptr:
-- 
2.43.0


From d01daf297ba086ef0d0922e93af192a5754e60a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 24/42] fix: SectionWithIndex creates the default section for
 the empty name

---
 file.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index c82b651..068e456 100644
--- a/file.go
+++ b/file.go
@@ -205,8 +205,10 @@ func (f *File) Section(name string) *Section {
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
 	if err != nil || len(secs) <= index {
-		// NOTE: It's OK here because the only possible error is empty section name,
-		// but if it's empty, this piece of code won't be executed.
+		if len(name) == 0 {
+			name = DefaultSection
+		}
+		// NOTE: It's OK here because the only possible error is empty section name.
 		newSec, _ := f.NewSection(name)
 		return newSec
 	}
-- 
2.43.0


From fd40f33dfc103191c4a5dfc93c013b037d42479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 25/42] fix: write the header of a leading section whose name
 resembles the default one

---
 file.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 068e456..90ef47d 100644
--- a/file.go
+++ b/file.go
@@ -392,6 +392,11 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 
 	// Use buffer to make sure target is safe until finish encoding.
 	buf := bytes.NewBuffer(nil)
+	defaultName := DefaultSection
+	if f.options.Insensitive || f.options.InsensitiveSections {
+		defaultName = strings.ToLower(DefaultSection)
+	}
+
 	lastSectionIdx := len(f.sectionList) - 1
 	for i, sname := range f.sectionList {
 		sec := f.sections[sname][f.sectionIndexes[i]]
@@ -411,7 +416,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			}
 		}
 
-		if i > 0 || DefaultHeader || (i == 0 && strings.ToUpper(sec.name) != DefaultSection) {
+		if i > 0 || DefaultHeader || (i == 0 && sname != defaultName) {
 			if _, err := buf.WriteString("[" + sname + "]" + LineBreak); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 1b123b386f2b6dbdd3cdcc3d588aefd122b49416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 26/42] fix: save the value of a boolean key that was changed

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 90ef47d..7f7b0a3 100644
--- a/file.go
+++ b/file.go
@@ -504,7 +504,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					return false, err
 				}
 
-				if key.isBooleanType {
+				if key.isBooleanType && val == "true" {
 					buf.WriteString(LineBreak)
 					return true, nil
 				}
-- 
2.43.0


From ea39fc636eaeff54770c4f94be690745597d7655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 27/42] fix: keep raw bodies without a final line break apart
 from the next section

---
 file.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/file.go b/file.go
index 7f7b0a3..a1fc10f 100644
--- a/file.go
+++ b/file.go
@@ -433,6 +433,13 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return nil, err
 			}
 
+			// Keep the body apart from the next section
+			if !isLastSection && len(sec.rawBody) > 0 && !strings.HasSuffix(sec.rawBody, "\n") {
+				if _, err := buf.WriteString(LineBreak); err != nil {
+					return nil, err
+				}
+			}
+
 			if PrettySection && !isLastSection {
 				// Put a line between sections
 				if _, err := buf.WriteString(LineBreak); err != nil {
-- 
2.43.0


From 94856c5d6732a925d2af09b63970b4f6d1a25a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 28/42] fix: keep the comment of a key with shadows

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index da47070..28a4d92 100644
--- a/parser.go
+++ b/parser.go
@@ -486,7 +486,11 @@ func (f *File) parse(reader io.Reader) (err error) {
 		}
 		f.update(func() {
 			key.isAutoIncrement = isAutoIncr
-			key.Comment = strings.TrimSpace(p.comment.String())
+			// The comment of a key stays when a shadow of it has none
+			comment := strings.TrimSpace(p.comment.String())
+			if len(comment) > 0 || !f.options.AllowShadows {
+				key.Comment = comment
+			}
 		})
 		p.comment.Reset()
 		lastRegularKey = key
-- 
2.43.0


From 82c12f8a16c6f9f9241296f66ac9666fa3676ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:07 +0000
Subject: [PATCH 29/42] fix: overwrite lists with empty ones when reflecting

---
 struct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/struct.go b/struct.go
index 6c0e97c..9bc9faa 100644
--- a/struct.go
+++ b/struct.go
@@ -487,6 +487,10 @@ func StrictMapTo(v, source interface{}, others ...interface{}) error {
 func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow bool) error {
 	slice := field.Slice(0, field.Len())
 	if field.Len() == 0 {
+		key.SetValue("")
+		key.s.f.update(func() {
+			key.shadows = nil
+		})
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
-- 
2.43.0


From 519a1e7381ee3bbd3ee399bb26228f802ec86575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 30/42] fix: keep all elements when reflecting to shadow keys
 without shadows

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 9bc9faa..d2dba92 100644
--- a/struct.go
+++ b/struct.go
@@ -495,7 +495,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 	}
 	sliceOf := field.Type().Elem().Kind()
 
-	if allowShadow {
+	if allowShadow && key.s.f.options.AllowShadows {
 		var keyWithShadows *Key
 		for i := 0; i < field.Len(); i++ {
 			var val string
-- 
2.43.0


From a1d2006ee8585fd59b5835353bcdc48cb83acea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:09 +0000
Subject: [PATCH 31/42] fix: do not take a key for an embedded struct that
 extends

---
 struct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/struct.go b/struct.go
index d2dba92..1b7f0dd 100644
--- a/struct.go
+++ b/struct.go
@@ -339,6 +339,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			if err := fieldSection.mapToField(field, isStrict, sectionIndex, sectionName); err != nil {
 				return fmt.Errorf("map to field %q: %v", fieldName, err)
 			}
+			continue
 		} else if isAnonymousPtr || isStruct || isStructPtr {
 			if secs, err := s.f.SectionsByName(fieldName); err == nil {
 				if len(secs) <= sectionIndex {
-- 
2.43.0


From 0795b7f7f17d1be8cb4f74c6b5b36eb687785fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:30 +0000
Subject: [PATCH 32/42] fix: keep the lowercased default section when
 reflecting with non-unique sections

---
 struct.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 1b7f0dd..012a386 100644
--- a/struct.go
+++ b/struct.go
@@ -739,7 +739,11 @@ func (s *Section) ReflectFrom(v interface{}) error {
 	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
 
-	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
+	defaultName := DefaultSection
+	if s.f.options.Insensitive || s.f.options.InsensitiveSections {
+		defaultName = strings.ToLower(DefaultSection)
+	}
+	if s.name != defaultName && s.f.options.AllowNonUniqueSections &&
 		(typ.Kind() == reflect.Slice || typ.Kind() == reflect.Ptr) {
 		// Clear sections to make sure none exists before adding the new ones
 		s.f.DeleteSection(s.name)
-- 
2.43.0


From 6687238d96324d1cd324a378d519c3fa713d08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 33/42] fix: do not overwrite keys of parent sections when
 reflecting

---
 struct.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 012a386..3d1798c 100644
--- a/struct.go
+++ b/struct.go
@@ -714,10 +714,11 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		// Note: Same reason as section.
-		key, err := s.GetKey(fieldName)
+		// Note: Same reason as section. Parent sections are not looked into,
+		// their keys do not belong to this struct.
+		key, err := s.addKey(fieldName, "", false)
 		if err != nil {
-			key, _ = s.NewKey(fieldName, "")
+			return err
 		}
 
 		// Add comment from comment tag
-- 
2.43.0


From 124225a3c79fec6cbe06ec088801aad4e0f32146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 34/42] fix: reflect the fields after an empty list of sections

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 3d1798c..a99a51e 100644
--- a/struct.go
+++ b/struct.go
@@ -688,7 +688,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
 			slice := field.Slice(0, field.Len())
 			if field.Len() == 0 {
-				return nil
+				continue
 			}
 			sliceOf := field.Type().Elem().Kind()
 
-- 
2.43.0


From 4720666e0075966a4216f7a86f39c0041e2c1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 35/42] fix: map times whose key is named like a section

---
 struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index a99a51e..51615dd 100644
--- a/struct.go
+++ b/struct.go
@@ -318,8 +318,8 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			continue
 		}
 
-		isStruct := tpField.Type.Kind() == reflect.Struct
-		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
+		isStruct := tpField.Type.Kind() == reflect.Struct && tpField.Type != timeType
+		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem() != timeType
 		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
 		if isAnonymousPtr {
 			field.Set(reflect.New(tpField.Type.Elem()))
-- 
2.43.0


From 8615b03de0d343fc1cbb48c648a32a6d06f2b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 36/42] fix: keep trying in Must* when the value changed
 meanwhile

The value the default is chosen for is the one that was parsed, and the
default is not returned without having been stored.
---
 key.go | 69 ++++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/key.go b/key.go
index 7fa5131..f9d58c1 100644
--- a/key.go
+++ b/key.go
@@ -278,24 +278,29 @@ func (k *Key) Time() (time.Time, error) {
 }
 
 // setDefault changes key value to the default, unless it is no longer the raw
-// value the default was chosen for.
-func (k *Key) setDefault(raw, defaultVal string) {
+// value the default was chosen for. It returns false in that case.
+func (k *Key) setDefault(raw, defaultVal string) bool {
 	if k.s.f.BlockMode {
 		k.s.f.lock.Lock()
 		defer k.s.f.lock.Unlock()
 	}
 
-	if k.value == raw {
-		k.setValue(defaultVal)
+	if k.value != raw {
+		return false
 	}
+
+	k.setValue(defaultVal)
+	return true
 }
 
 // MustString returns default value if key value is empty.
 func (k *Key) MustString(defaultVal string) string {
 	raw := k.Value()
-	val := k.String()
+	val := k.transformValue(raw)
 	if len(val) == 0 {
-		k.setDefault(raw, defaultVal)
+		if !k.setDefault(raw, defaultVal) {
+			return k.MustString(defaultVal)
+		}
 		return defaultVal
 	}
 	return val
@@ -305,9 +310,11 @@ func (k *Key) MustString(defaultVal string) string {
 // it returns false if error occurs.
 func (k *Key) MustBool(defaultVal ...bool) bool {
 	raw := k.Value()
-	val, err := k.Bool()
+	val, err := parseBool(k.transformValue(raw))
 	if len(defaultVal) > 0 && err != nil {
-		k.setDefault(raw, strconv.FormatBool(defaultVal[0]))
+		if !k.setDefault(raw, strconv.FormatBool(defaultVal[0])) {
+			return k.MustBool(defaultVal...)
+		}
 		return defaultVal[0]
 	}
 	return val
@@ -317,9 +324,11 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 // it returns 0.0 if error occurs.
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	raw := k.Value()
-	val, err := k.Float64()
+	val, err := strconv.ParseFloat(k.transformValue(raw), 64)
 	if len(defaultVal) > 0 && err != nil {
-		k.setDefault(raw, strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
+		if !k.setDefault(raw, strconv.FormatFloat(defaultVal[0], 'f', -1, 64)) {
+			return k.MustFloat64(defaultVal...)
+		}
 		return defaultVal[0]
 	}
 	return val
@@ -329,21 +338,25 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 // it returns 0 if error occurs.
 func (k *Key) MustInt(defaultVal ...int) int {
 	raw := k.Value()
-	val, err := k.Int()
+	val, err := strconv.ParseInt(k.transformValue(raw), 0, 64)
 	if len(defaultVal) > 0 && err != nil {
-		k.setDefault(raw, strconv.FormatInt(int64(defaultVal[0]), 10))
+		if !k.setDefault(raw, strconv.FormatInt(int64(defaultVal[0]), 10)) {
+			return k.MustInt(defaultVal...)
+		}
 		return defaultVal[0]
 	}
-	return val
+	return int(val)
 }
 
 // MustInt64 always returns value without error,
 // it returns 0 if error occurs.
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	raw := k.Value()
-	val, err := k.Int64()
+	val, err := strconv.ParseInt(k.transformValue(raw), 0, 64)
 	if len(defaultVal) > 0 && err != nil {
-		k.setDefault(raw, strconv.FormatInt(defaultVal[0], 10))
+		if !k.setDefault(raw, strconv.FormatInt(defaultVal[0], 10)) {
+			return k.MustInt64(defaultVal...)
+		}
 		return defaultVal[0]
 	}
 	return val
@@ -353,21 +366,25 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 // it returns 0 if error occurs.
 func (k *Key) MustUint(defaultVal ...uint) uint {
 	raw := k.Value()
-	val, err := k.Uint()
+	val, err := strconv.ParseUint(k.transformValue(raw), 0, 64)
 	if len(defaultVal) > 0 && err != nil {
-		k.setDefault(raw, strconv.FormatUint(uint64(defaultVal[0]), 10))
+		if !k.setDefault(raw, strconv.FormatUint(uint64(defaultVal[0]), 10)) {
+			return k.MustUint(defaultVal...)
+		}
 		return defaultVal[0]
 	}
-	return val
+	return uint(val)
 }
 
 // MustUint64 always returns value without error,
 // it returns 0 if error occurs.
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	raw := k.Value()
-	val, err := k.Uint64()
+	val, err := strconv.ParseUint(k.transformValue(raw), 0, 64)
 	if len(defaultVal) > 0 && err != nil {
-		k.setDefault(raw, strconv.FormatUint(defaultVal[0], 10))
+		if !k.setDefault(raw, strconv.FormatUint(defaultVal[0], 10)) {
+			return k.MustUint64(defaultVal...)
+		}
 		return defaultVal[0]
 	}
 	return val
@@ -377,9 +394,11 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 // it returns zero value if error occurs.
 func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 	raw := k.Value()
-	val, err := k.Duration()
+	val, err := time.ParseDuration(k.transformValue(raw))
 	if len(defaultVal) > 0 && err != nil {
-		k.setDefault(raw, defaultVal[0].String())
+		if !k.setDefault(raw, defaultVal[0].String()) {
+			return k.MustDuration(defaultVal...)
+		}
 		return defaultVal[0]
 	}
 	return val
@@ -389,9 +408,11 @@ func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 // it returns zero value if error occurs.
 func (k *Key) MustTimeFormat(format string, defaultVal ...time.Time) time.Time {
 	raw := k.Value()
-	val, err := k.TimeFormat(format)
+	val, err := time.Parse(format, k.transformValue(raw))
 	if len(defaultVal) > 0 && err != nil {
-		k.setDefault(raw, defaultVal[0].Format(format))
+		if !k.setDefault(raw, defaultVal[0].Format(format)) {
+			return k.MustTimeFormat(format, defaultVal...)
+		}
 		return defaultVal[0]
 	}
 	return val
-- 
2.43.0


From 0d0ece60cba15b121423aa59a5dfb65e4101c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:57 +0000
Subject: [PATCH 37/42] fix: lock around the list of data sources in Reload and
 Append

---
 file.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/file.go b/file.go
index a1fc10f..7ea84f1 100644
--- a/file.go
+++ b/file.go
@@ -328,7 +328,11 @@ func (f *File) reload(s dataSource) error {
 
 // Reload reloads and parses all data sources.
 func (f *File) Reload() (err error) {
-	for _, s := range f.dataSources {
+	var sources []dataSource
+	f.update(func() {
+		sources = append(sources, f.dataSources...)
+	})
+	for _, s := range sources {
 		if err = f.reload(s); err != nil {
 			// In loose mode, we create an empty default section for nonexistent files.
 			if os.IsNotExist(err) && f.options.Loose {
@@ -350,13 +354,17 @@ func (f *File) Append(source interface{}, others ...interface{}) error {
 	if err != nil {
 		return err
 	}
-	f.dataSources = append(f.dataSources, ds)
+	f.update(func() {
+		f.dataSources = append(f.dataSources, ds)
+	})
 	for _, s := range others {
 		ds, err = parseDataSource(s)
 		if err != nil {
 			return err
 		}
-		f.dataSources = append(f.dataSources, ds)
+		f.update(func() {
+			f.dataSources = append(f.dataSources, ds)
+		})
 	}
 	return f.Reload()
 }
-- 
2.43.0


From f318ed269e4186acc956523f1c9be821ab18718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 38/42] fix: take only a failure to open a source for a
 nonexistent file

---
 file.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/file.go b/file.go
index 7ea84f1..9b549e7 100644
--- a/file.go
+++ b/file.go
@@ -316,11 +316,8 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 	return nil
 }
 
-func (f *File) reload(s dataSource) error {
-	r, err := s.ReadCloser()
-	if err != nil {
-		return err
-	}
+// reload parses an opened data source and closes it.
+func (f *File) reload(r io.ReadCloser) error {
 	defer r.Close()
 
 	return f.parse(r)
@@ -333,7 +330,8 @@ func (f *File) Reload() (err error) {
 		sources = append(sources, f.dataSources...)
 	})
 	for _, s := range sources {
-		if err = f.reload(s); err != nil {
+		r, err := s.ReadCloser()
+		if err != nil {
 			// In loose mode, we create an empty default section for nonexistent files.
 			if os.IsNotExist(err) && f.options.Loose {
 				_ = f.parse(bytes.NewBuffer(nil))
@@ -341,6 +339,9 @@ func (f *File) Reload() (err error) {
 			}
 			return err
 		}
+		if err = f.reload(r); err != nil {
+			return err
+		}
 		if f.options.ShortCircuit {
 			return nil
 		}
-- 
2.43.0


From 48da7edb178fca22defdacf3a31dc60ff4ac933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 39/42] fix: saves of one File to the same path at the same
 time mix or leave older content

---
 file.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/file.go b/file.go
index 9b549e7..10a97cf 100644
--- a/file.go
+++ b/file.go
@@ -33,6 +33,7 @@ type File struct {
 	// Should make things safe, but sometimes doesn't matter.
 	BlockMode bool
 	lock      sync.RWMutex
+	saveLock  sync.Mutex // held while saving to the file system
 
 	// To keep data in order.
 	sectionList []string
@@ -598,6 +599,12 @@ func (f *File) WriteTo(w io.Writer) (int64, error) {
 
 // SaveToIndent writes content to file system with given value indention.
 func (f *File) SaveToIndent(filename, indent string) error {
+	// Saves at the same time would mix in the target, or leave the older content there.
+	if f.BlockMode {
+		f.saveLock.Lock()
+		defer f.saveLock.Unlock()
+	}
+
 	// Note: Because we are truncating with os.Create,
 	// 	so it's safer to save to a temporary file location and rename after done.
 	buf, err := f.writeToBuffer(indent)
-- 
2.43.0


From c25b1ce3bd643b517d3bcf502425bc6513c29d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 40/42] fix: write all values of a boolean key that has shadow
 values

---
 file.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 10a97cf..aecba6f 100644
--- a/file.go
+++ b/file.go
@@ -516,12 +516,14 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				kname = `"""` + kname + `"""`
 			}
 
+			shadows := key.valueWithShadows()
 			writeKeyValue := func(val string) (bool, error) {
 				if _, err := buf.WriteString(kname); err != nil {
 					return false, err
 				}
 
-				if key.isBooleanType && val == "true" {
+				// No more values can follow a key that has been written as boolean.
+				if key.isBooleanType && val == "true" && len(shadows) == 1 {
 					buf.WriteString(LineBreak)
 					return true, nil
 				}
@@ -547,7 +549,6 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return false, nil
 			}
 
-			shadows := key.valueWithShadows()
 			if len(shadows) == 0 {
 				if _, err := writeKeyValue(""); err != nil {
 					return nil, err
-- 
2.43.0


From e025af15aaae5d59974afb7603374230abb8b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 41/42] fix: a key defined with a value is no longer a boolean
 key

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index 28a4d92..1902e16 100644
--- a/parser.go
+++ b/parser.go
@@ -486,6 +486,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 		}
 		f.update(func() {
 			key.isAutoIncrement = isAutoIncr
+			key.isBooleanType = false
 			// The comment of a key stays when a shadow of it has none
 			comment := strings.TrimSpace(p.comment.String())
 			if len(comment) > 0 || !f.options.AllowShadows {
-- 
2.43.0


From b2fbfc767c03fe809454474a2c81cc435dfdba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 42/42] fix: with SpaceBeforeInlineComment the comment starts
 at the first of " #" and " ;"

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 1902e16..6f197cc 100644
--- a/parser.go
+++ b/parser.go
@@ -269,8 +269,8 @@ func (p *parser) readValue(in []byte) (string, error) {
 		var i int
 		if p.options.SpaceBeforeInlineComment {
 			i = strings.Index(line, " #")
-			if i == -1 {
-				i = strings.Index(line, " ;")
+			if j := strings.Index(line, " ;"); i == -1 || j > -1 && j < i {
+				i = j
 			}
 
 		} else {
-- 
2.43.0

