From 6081e73cdabac18cbec6ea263a831a91f3dee68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 01/22] fix: guard the bundled spec cache against concurrent
 LoadSpec/UnloadSpec

---
 specs.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/specs.go b/specs.go
index ea2d727..bb42861 100644
--- a/specs.go
+++ b/specs.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/pkg/errors"
 )
@@ -34,14 +35,20 @@ func ListLangs() []string {
 	return langs
 }
 
-// Cached specs.
-var specs = make(map[string]*Spec)
+// Cached specs, guarded by specsMu.
+var (
+	specsMu sync.Mutex
+	specs   = make(map[string]*Spec)
+)
 
 // LoadSpec finds a bundled spec by the given language name.
 // Once it loads a spec, it will cache the spec.
 func LoadSpec(lang string) (*Spec, error) {
 	var spec *Spec
 
+	specsMu.Lock()
+	defer specsMu.Unlock()
+
 	spec, ok := specs[lang]
 	if ok {
 		// already loaded
@@ -69,5 +76,8 @@ func LoadSpec(lang string) (*Spec, error) {
 
 // UnloadSpec flushes a cached spec to get free memory.
 func UnloadSpec(lang string) {
+	specsMu.Lock()
+	defer specsMu.Unlock()
+
 	delete(specs, lang)
 }
-- 
2.43.0


From 12000cca1a7d52229e191d9be5b96a92c5cb31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 02/22] fix: guard translit registries against concurrent use

---
 translit.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/translit.go b/translit.go
index 7a821e7..dbb24f3 100644
--- a/translit.go
+++ b/translit.go
@@ -1,5 +1,7 @@
 package hangulize
 
+import "sync"
+
 // Translit is an interface for a transliterator. It may convert a word from
 // one script to another script. It also may guess phonograms from the spelling
 // based on lexical analysis.
@@ -14,8 +16,14 @@ type Translit interface {
 // translitRegistry is a registry holding Translits.
 type translitRegistry map[string]Translit
 
+// translitMu guards the contents of every translitRegistry.
+var translitMu sync.RWMutex
+
 // Detach copies the registry as map[string]Translit.
 func (r translitRegistry) Detach() map[string]Translit {
+	translitMu.RLock()
+	defer translitMu.RUnlock()
+
 	copied := make(map[string]Translit, len(r))
 	for m, t := range r {
 		copied[m] = t
@@ -27,6 +35,9 @@ func (r translitRegistry) Detach() map[string]Translit {
 func (r translitRegistry) Add(t Translit) bool {
 	scheme := t.Scheme()
 
+	translitMu.Lock()
+	defer translitMu.Unlock()
+
 	if _, ok := r[scheme]; ok {
 		// already exists
 		return false
@@ -38,6 +49,9 @@ func (r translitRegistry) Add(t Translit) bool {
 
 // Remove deregisters a Translit from the registry.
 func (r translitRegistry) Remove(scheme string) bool {
+	translitMu.Lock()
+	defer translitMu.Unlock()
+
 	_, ok := r[scheme]
 	if ok {
 		delete(r, scheme)
-- 
2.43.0


From e8aac4759af516d96d243f2b02f1b156da1fd1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 03/22] fix: create the Kagome tokenizer once under concurrent
 Transliterate calls

---
 translit/furigana/furigana.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/translit/furigana/furigana.go b/translit/furigana/furigana.go
index a159318..0233333 100644
--- a/translit/furigana/furigana.go
+++ b/translit/furigana/furigana.go
@@ -6,6 +6,8 @@ converted to Kana. This Translit uses IPADIC in Kagome to analyze Kanji.
 package furigana
 
 import (
+	"sync"
+
 	"github.com/hangulize/hangulize"
 	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
 	"golang.org/x/text/unicode/norm"
@@ -17,20 +19,21 @@ var T hangulize.Translit = &furigana{}
 // ----------------------------------------------------------------------------
 
 type furigana struct {
+	once   sync.Once
 	kagome *kagome.Tokenizer
 }
 
-func (furigana) Scheme() string {
+func (*furigana) Scheme() string {
 	return "furigana"
 }
 
 // ensureKagome caches a Kagome tokenizer because it is expensive.
 func (p *furigana) ensureKagome() *kagome.Tokenizer {
-	if p.kagome == nil {
+	p.once.Do(func() {
 		// It may take a while.
 		k := kagome.New()
 		p.kagome = &k
-	}
+	})
 	return p.kagome
 }
 
-- 
2.43.0


From 49889e0149c7e3d18cc17e701b89e0208848c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 04/22] fix: expand macros and normalize letters in a
 deterministic order

Overlapping sources were tried in the map iteration order, so the result of
a transcription could differ from process to process.
---
 pkg/hre/macro.go | 19 ++++++++++++-------
 spec.go          | 37 ++++++++++++++++++++++++++++++-------
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/pkg/hre/macro.go b/pkg/hre/macro.go
index 43f67ae..639d582 100644
--- a/pkg/hre/macro.go
+++ b/pkg/hre/macro.go
@@ -1,19 +1,24 @@
 package hre
 
 import (
+	"sort"
 	"strings"
 )
 
 // expandMacros replaces macro sources to corresponding targets.
 func expandMacros(expr string, macros map[string]string) string {
-	args := make([]string, len(macros)*2)
+	srcs := make([]string, 0, len(macros))
+	for src := range macros {
+		srcs = append(srcs, src)
+	}
+
+	// The replacer prefers earlier arguments. Put a longer macro before its
+	// prefix, regardless of the map iteration order.
+	sort.Sort(sort.Reverse(sort.StringSlice(srcs)))
 
-	i := 0
-	for src, dst := range macros {
-		args[i] = src
-		i++
-		args[i] = dst
-		i++
+	args := make([]string, 0, len(macros)*2)
+	for _, src := range srcs {
+		args = append(args, src, macros[src])
 	}
 
 	rep := strings.NewReplacer(args...)
diff --git a/spec.go b/spec.go
index 3a97367..44425ce 100644
--- a/spec.go
+++ b/spec.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -165,13 +166,7 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	puncts := collectPuncts(rewrite, transcribe)
 
 	// custom normalization
-	var args []string
-	for to, froms := range normalize {
-		for _, from := range froms {
-			args = append(args, from, to)
-		}
-	}
-	normReplacer := strings.NewReplacer(args...)
+	normReplacer := newNormReplacer(normalize)
 
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
@@ -266,6 +261,34 @@ func newConfig(dict *hsl.DictSection) (*Config, error) {
 	return &config, nil
 }
 
+// -----------------------------------------------------------------------------
+// "normalize" section
+
+// newNormReplacer creates a replacer for the custom normalization. The
+// replacer prefers earlier arguments. So it puts a longer source before its
+// prefix, regardless of the map iteration order.
+func newNormReplacer(normalize map[string][]string) *strings.Replacer {
+	var pairs [][2]string
+	for to, froms := range normalize {
+		for _, from := range froms {
+			pairs = append(pairs, [2]string{from, to})
+		}
+	}
+
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i][0] != pairs[j][0] {
+			return pairs[i][0] > pairs[j][0]
+		}
+		return pairs[i][1] < pairs[j][1]
+	})
+
+	args := make([]string, 0, len(pairs)*2)
+	for _, pair := range pairs {
+		args = append(args, pair[0], pair[1])
+	}
+	return strings.NewReplacer(args...)
+}
+
 // -----------------------------------------------------------------------------
 // "rewrite"/"transcribe" section
 
-- 
2.43.0


From 36d988a1b1a8a24a52c3d5981d0ee2c6881d6eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 05/22] fix: make cyrillic transliteration independent of the
 map order

Latin sequences overlap (s, sh, sht), and strings.Replacer prefers earlier
arguments.
---
 translit/cyrillic/cyrillic.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/translit/cyrillic/cyrillic.go b/translit/cyrillic/cyrillic.go
index 3d6e059..33c0d35 100644
--- a/translit/cyrillic/cyrillic.go
+++ b/translit/cyrillic/cyrillic.go
@@ -2,6 +2,7 @@ package cyrillic
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hangulize/hangulize"
@@ -25,9 +26,18 @@ func mustNew(country string) hangulize.Translit {
 		panic(fmt.Errorf("cyrillic: invalid country: %s", country))
 	}
 
-	oldnew := make([]string, 0, len(mapping.ToCyrillic)*2)
-	for src, dst := range mapping.ToCyrillic {
-		oldnew = append(oldnew, src, dst)
+	srcs := make([]string, 0, len(mapping.ToCyrillic))
+	for src := range mapping.ToCyrillic {
+		srcs = append(srcs, src)
+	}
+
+	// The replacer prefers earlier arguments. Put a longer one such as "sht"
+	// before its prefix, regardless of the map iteration order.
+	sort.Sort(sort.Reverse(sort.StringSlice(srcs)))
+
+	oldnew := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		oldnew = append(oldnew, src, mapping.ToCyrillic[src])
 	}
 	repl := strings.NewReplacer(oldnew...)
 
-- 
2.43.0


From f30f761ef13af459eb1078fe29f8a7f0603727c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 06/22] fix: list translits in the manifest in a stable order

---
 cmd/manifest.json/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/manifest.json/main.go b/cmd/manifest.json/main.go
index 3f18ec2..b0bca83 100644
--- a/cmd/manifest.json/main.go
+++ b/cmd/manifest.json/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
 	"github.com/hangulize/hangulize"
 )
@@ -81,6 +82,7 @@ func main() {
 	for id := range translitSet {
 		translits = append(translits, id)
 	}
+	sort.Strings(translits)
 
 	b, err := json.Marshal(manifest{version, specs, translits})
 	if err != nil {
-- 
2.43.0


From f0456eee16c36a69b0b4be1e2ced316ea85189c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 07/22] fix: keep the order of dictionary pairs and errors
 stable

---
 pkg/hsl/structures.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/hsl/structures.go b/pkg/hsl/structures.go
index 6cb9426..5c385ee 100644
--- a/pkg/hsl/structures.go
+++ b/pkg/hsl/structures.go
@@ -2,6 +2,7 @@ package hsl
 
 import (
 	"fmt"
+	"sort"
 )
 
 // HSL is a decoding result of an HSL code.
@@ -116,12 +117,15 @@ func newDictSection(line int) *DictSection {
 
 // Pairs returns dict key-values as an array of pairs.
 func (s DictSection) Pairs() []Pair {
-	pairs := make([]Pair, len(s.dict))
+	lefts := make([]string, 0, len(s.dict))
+	for left := range s.dict {
+		lefts = append(lefts, left)
+	}
+	sort.Strings(lefts)
 
-	i := 0
-	for _, pair := range s.dict {
-		pairs[i] = pair
-		i++
+	pairs := make([]Pair, len(lefts))
+	for i, left := range lefts {
+		pairs[i] = s.dict[left]
 	}
 
 	return pairs
@@ -155,7 +159,7 @@ func (s DictSection) Map() map[string][]string {
 func (s DictSection) Injective() (map[string]string, error) {
 	oneToOne := make(map[string]string, len(s.dict))
 
-	for _, pair := range s.dict {
+	for _, pair := range s.Pairs() {
 		right := pair.Right()
 
 		if len(right) != 1 {
-- 
2.43.0


From 72af99583394bc824ea2bcee92f027d2db0b0338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 08/22] fix: report malformed or unreadable HSL sources as
 errors

An unterminated quote looped forever, a lone hyphen or a duplicated key
panicked, a NUL letter or a read error truncated the source silently, a
backslash swallowed the closing quote and a trailing comment merged the
values of the next line.
---
 pkg/hsl/lexer.go  | 48 +++++++++++++++++++++++++++++++++++------------
 pkg/hsl/parser.go | 13 +++++++++++--
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 3ab27d5..190d768 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -14,14 +14,25 @@ type lexer struct {
 
 	line     int
 	prevLine int
+
+	err error
 }
 
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{bufio.NewReader(r), 1, 1}
+	return &lexer{bufio.NewReader(r), 1, 1, nil}
 }
 
-const eof = rune(0)
+const eof = rune(-1)
+
+// Err returns the error which has stopped reading. It is nil at the end of the
+// source.
+func (l lexer) Err() error {
+	if l.err == io.EOF {
+		return nil
+	}
+	return l.err
+}
 
 // Line returns the current line number.
 func (l lexer) Line() int {
@@ -30,9 +41,14 @@ func (l lexer) Line() int {
 
 // read reads the rune on the buffer cursor.
 func (l *lexer) read() rune {
+	if l.err != nil {
+		return eof
+	}
+
 	ch, _, err := l.r.ReadRune()
 
 	if err != nil {
+		l.err = err
 		return eof
 	}
 
@@ -154,21 +170,28 @@ func (l *lexer) scanQuotedString() (token, string) {
 	for {
 		ch := l.read()
 
-		if ch == '"' {
-			if escaped {
-				escaped = false
-			} else {
-				break
+		if ch == eof {
+			// not terminated
+			return Illegal, buf.String()
+		}
+
+		if escaped {
+			// Only quotes and backslashes need to be escaped.
+			if ch != '"' && ch != '\\' {
+				buf.WriteRune('\\')
 			}
+			buf.WriteRune(ch)
+			escaped = false
+			continue
 		}
 
+		if ch == '"' {
+			break
+		}
 		if ch == '\\' {
 			escaped = true
 			continue
 		}
-		if escaped {
-			continue
-		}
 
 		buf.WriteRune(ch)
 	}
@@ -183,7 +206,8 @@ func (l *lexer) scanArrow() (token, string) {
 	second := l.read()
 
 	if first != '-' || second != '>' {
-		panic("not ->")
+		l.unread()
+		return Illegal, string(first)
 	}
 
 	return Arrow, "->"
@@ -194,7 +218,7 @@ func (l *lexer) Scan() (token, string) {
 	ch := l.read()
 
 	if ch == eof {
-		return EOF, string(eof)
+		return EOF, ""
 	}
 	if ch == '\n' {
 		return Newline, "\n"
diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 50a4fe4..f32ddbc 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -42,6 +42,10 @@ func (p *parser) parse() (HSL, error) {
 	for {
 		tok, lit, line = p.scan()
 
+		if err := p.lexer.Err(); err != nil {
+			return nil, fmt.Errorf("parse: %w", err)
+		}
+
 		// The common behavior for useless tokens.
 		if tok == Illegal {
 			return nil, fmt.Errorf("parse: %w: %s", errIllegalToken, lit)
@@ -100,7 +104,7 @@ func (p *parser) parse() (HSL, error) {
 			}
 
 			if err := section.addPair(lastString, values, line); err != nil {
-				panic(fmt.Errorf("failed to add pair: %w", err))
+				return nil, fmt.Errorf("parse: failed to add pair: %w", err)
 			}
 
 			continue
@@ -116,13 +120,18 @@ func (p *parser) parseValues() ([]string, error) {
 	for {
 		tok, lit, _ := p.scan()
 
+		if err := p.lexer.Err(); err != nil {
+			return nil, fmt.Errorf("parse values: %w", err)
+		}
+
 		// The common behavior for useless tokens.
 		if tok == Illegal {
 			return nil, fmt.Errorf("parse values: %w: %s", errIllegalToken, lit)
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
-			continue
+			// A comment extends over its line, including the newline.
+			break
 		}
 
 		// Collect strings in values.
-- 
2.43.0


From 081230593eb943fe073ffce79f6b4bbd62f92ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 09/22] fix: return an error for a mistyped section or a rule
 without a result

---
 spec.go | 86 ++++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 76 insertions(+), 10 deletions(-)

diff --git a/spec.go b/spec.go
index 44425ce..66bd7c1 100644
--- a/spec.go
+++ b/spec.go
@@ -77,7 +77,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var lang Language
 
 	if sec, ok := h["lang"]; ok {
-		_lang, err := newLanguage(sec.(*hsl.DictSection))
+		dict, err := dictSection("lang", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_lang, err := newLanguage(dict)
 
 		if err != nil {
 			return nil, err
@@ -90,7 +95,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var config Config
 
 	if sec, ok := h["config"]; ok {
-		_config, err := newConfig(sec.(*hsl.DictSection))
+		dict, err := dictSection("config", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_config, err := newConfig(dict)
 
 		if err != nil {
 			return nil, err
@@ -103,7 +113,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var macros map[string]string
 
 	if sec, ok := h["macros"]; ok {
-		macros, err = sec.(*hsl.DictSection).Injective()
+		dict, err := dictSection("macros", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		macros, err = dict.Injective()
 
 		if err != nil {
 			return nil, err
@@ -113,19 +128,34 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// vars
 	var vars map[string][]string
 	if sec, ok := h["vars"]; ok {
-		vars = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("vars", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		vars = dict.Map()
 	}
 
 	// normalize
 	var normalize map[string][]string
 	if sec, ok := h["normalize"]; ok {
-		normalize = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("normalize", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		normalize = dict.Map()
 	}
 
 	// rewrite
 	var rewritePairs []hsl.Pair
 	if sec, ok := h["rewrite"]; ok {
-		rewritePairs = sec.(*hsl.ListSection).Pairs()
+		list, err := listSection("rewrite", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		rewritePairs = list.Pairs()
 	}
 
 	rewrite, err := newRules(rewritePairs, macros, vars)
@@ -136,7 +166,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// transcribe
 	var transcribePairs []hsl.Pair
 	if sec, ok := h["transcribe"]; ok {
-		transcribePairs = sec.(*hsl.ListSection).Pairs()
+		list, err := listSection("transcribe", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		transcribePairs = list.Pairs()
 	}
 
 	transcribe, err := newRules(transcribePairs, macros, vars)
@@ -147,11 +182,20 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// test
 	var test [][2]string
 	if sec, ok := h["test"]; ok {
-		for _, pair := range sec.(*hsl.ListSection).Pairs() {
+		list, err := listSection("test", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		for _, pair := range list.Pairs() {
 			word := pair.Left()
-			result := pair.Right()[0]
+			right := pair.Right()
+
+			if len(right) == 0 {
+				return nil, errors.Errorf("no result for the test: %#v", word)
+			}
 
-			exm := [2]string{word, result}
+			exm := [2]string{word, right[0]}
 
 			test = append(test, exm)
 		}
@@ -205,6 +249,24 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// dictSection asserts that the section is a dictionary.
+func dictSection(name string, sec hsl.Section) (*hsl.DictSection, error) {
+	dict, ok := sec.(*hsl.DictSection)
+	if !ok {
+		return nil, errors.Errorf("%s must be a dictionary section", name)
+	}
+	return dict, nil
+}
+
+// listSection asserts that the section is a pair list.
+func listSection(name string, sec hsl.Section) (*hsl.ListSection, error) {
+	list, ok := sec.(*hsl.ListSection)
+	if !ok {
+		return nil, errors.Errorf("%s must be a pair list section", name)
+	}
+	return list, nil
+}
+
 // -----------------------------------------------------------------------------
 // "lang" section
 
@@ -315,6 +377,10 @@ func newRules(
 		}
 
 		right := pair.Right()
+		if len(right) == 0 {
+			return nil, errors.Errorf("%s has no replacement", from)
+		}
+
 		to := hre.NewRPattern(right[0], macros, vars)
 
 		rules[i] = Rule{i, from, to}
-- 
2.43.0


From afa3632148644facf8645087ff6c6300142feb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 10/22] fix: except every letter of a normalization result, not
 only the first

---
 spec.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spec.go b/spec.go
index 66bd7c1..4ec8976 100644
--- a/spec.go
+++ b/spec.go
@@ -7,7 +7,6 @@ import (
 	"sort"
 	"strings"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/pkg/errors"
 
@@ -215,11 +214,8 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
 	for to := range normalize {
-		more := len(to)
-		for more > 0 {
-			let, size := utf8.DecodeRuneInString(to)
+		for _, let := range to {
 			normLetters[let] = true
-			more -= size
 		}
 	}
 
-- 
2.43.0


From 4896ecf662a40e751ab14a6e95db2abc7a95a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 11/22] fix: read the author key which every bundled spec uses

---
 spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec.go b/spec.go
index 4ec8976..bd46730 100644
--- a/spec.go
+++ b/spec.go
@@ -313,7 +313,7 @@ type Config struct {
 
 func newConfig(dict *hsl.DictSection) (*Config, error) {
 	config := Config{
-		Authors: dict.All("authors"),
+		Authors: dict.All("author"),
 		Stage:   dict.One("stage"),
 	}
 	return &config, nil
-- 
2.43.0


From c29f99a1066c2ed3f9edafa93349fd3199a7a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 12/22] fix: regard a bounded repetition of an unlimited regexp
 as unlimited

---
 pkg/hre/width.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/width.go b/pkg/hre/width.go
index 8153322..cf5bc2d 100644
--- a/pkg/hre/width.go
+++ b/pkg/hre/width.go
@@ -54,7 +54,14 @@ func RegexpMaxWidth(re *syntax.Regexp) int {
 		if re.Max == -1 {
 			return -1
 		}
-		return re.Max * RegexpMaxWidth(re.Sub0[0])
+
+		n := RegexpMaxWidth(re.Sub0[0])
+
+		if n == -1 {
+			return -1
+		}
+
+		return re.Max * n
 
 	case syntax.OpConcat:
 		// matches concatenation of Subs
-- 
2.43.0


From 3d6733015dca5b945c5392128c34de6a5b012c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 13/22] fix: apply negative lookaround to letters instead of
 bytes

The widths count letters but Find cut the word by bytes, so a negative
lookaround for non-Latin letters was never tested against a whole letter.
---
 pkg/hre/pattern.go | 31 +++++++++++--------------------
 pkg/hre/util.go    | 10 ++++++++++
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 74c7e19..0e6a931 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -41,8 +41,8 @@ type Pattern struct {
 	negA *regexp.Regexp // negative ahead regexp
 	negB *regexp.Regexp // negative behind regexp
 
-	negAWidth int // max width of nagative lookahead
-	negBWidth int // max width of nagative lookbehind
+	negAWidth int // max letters of negative lookahead
+	negBWidth int // max letters of negative lookbehind
 
 	// Letters used in the positive/negative regexps.
 	letters map[rune]bool
@@ -221,32 +221,23 @@ func (p *Pattern) Find(word string, n int) [][]int {
 
 		// Test negative lookahead.
 		if p.negA != nil {
-			var negAStart, negAStop int
-
-			negAStart = m[lenM-4]
-			if p.negAWidth == -1 {
-				negAStop = len(word)
-			} else {
-				negAStop = m[lenM-4] + p.negAWidth
-			}
-
-			if p.negA.MatchString(substr(word, negAStart, negAStop)) {
+			// negA is anchored by "^". Keep the whole following text to not
+			// confuse "$" in the lookahead.
+			if p.negA.MatchString(word[stop:]) {
 				continue
 			}
 		}
 
 		// Test negative lookbehind.
 		if p.negB != nil {
-			var negBStart, negBStop int
-
-			negBStop = m[5]
-			if p.negBWidth == -1 {
-				negBStart = 0
-			} else {
-				negBStart = m[5] - p.negBWidth
+			negBStart := 0
+			if p.negBWidth != -1 {
+				// negB is anchored by "$". Keep one more letter to not confuse
+				// "^" in the lookbehind.
+				negBStart = shiftLeft(word, start, p.negBWidth+1)
 			}
 
-			if p.negB.MatchString(substr(word, negBStart, negBStop)) {
+			if p.negB.MatchString(word[negBStart:start]) {
 				continue
 			}
 		}
diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 6949e9d..6af348e 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -3,6 +3,7 @@ package hre
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 // indexOf finds the index of the given value in a string array. It returns -1
@@ -37,6 +38,15 @@ func substr(s string, start int, stop int) string {
 	return ""
 }
 
+// shiftLeft moves the byte index to the left by the number of letters.
+func shiftLeft(s string, index int, letters int) int {
+	for ; letters > 0 && index > 0; letters-- {
+		_, size := utf8.DecodeLastRuneInString(s[:index])
+		index -= size
+	}
+	return index
+}
+
 // captured returns the captured substring by their group number.
 func captured(s string, m []int, n int) string {
 	i := n * 2
-- 
2.43.0


From e0a43c369b7726e488d115d3e5194c6ddf1a0df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 14/22] fix: never panic while interpolating variables

A replacement mapping an undefined variable, or a variable which the pattern
does not capture, panicked instead of keeping the original.
---
 pkg/hre/rpattern.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/hre/rpattern.go b/pkg/hre/rpattern.go
index 42554b3..ee1cfa6 100644
--- a/pkg/hre/rpattern.go
+++ b/pkg/hre/rpattern.go
@@ -115,11 +115,21 @@ func (rp *RPattern) Interpolate(
 				err := errors.New("mapped vars have different length")
 				return "", err
 			}
+			if len(m) < (varIndex+2)*2 {
+				return "", errors.New("mapped var not captured")
+			}
+			if len(part.usedVar) == 0 {
+				return "", errors.Errorf("mapped var %s is empty", part.lit)
+			}
+
 			fromVar := p.usedVars[varIndex]
 			fromVal := captured(word, m, varIndex+1)
 
 			// Find index of the matched character in the var.
 			i := indexOf(fromVal, fromVar)
+			if i == -1 {
+				return "", errors.Errorf("%#v is not in mapped var", fromVal)
+			}
 			i = i % len(part.usedVar)
 
 			// Choose a replacement character at the same index.
-- 
2.43.0


From 9c5ca8248fc5ac8803ba40cb39fca664f15c672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 15/22] fix: report an invalid lookaround instead of a pattern
 never matching

---
 pkg/hre/assertions.go | 3 ++-
 pkg/hre/util.go       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index dd2fb4e..6218059 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -99,7 +99,8 @@ func dissolveLookaround(
 
 			re, err := syntax.Parse(negExpr, syntax.Perl)
 			if err != nil {
-				return ``, ``, 0, false
+				// NewPattern will report that it cannot be compiled.
+				return ``, negExpr, 0, true
 			}
 			negWidth = RegexpMaxWidth(re)
 		}
diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 6af348e..8d10821 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -55,7 +55,8 @@ func captured(s string, m []int, n int) string {
 
 // noCapture removes capturing groups in a regexp string.
 func noCapture(expr string) string {
-	return strings.Replace(expr, "(", "(?:", -1)
+	expr = strings.Replace(expr, "(", "(?:", -1)
+	return strings.Replace(expr, "(?:?", "(?", -1)
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 136f155a1cf2f29998f503c47ad934a617efd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 16/22] fix: answer every word from the standard input

The last line without a newline was dropped and a blank line stopped reading.
---
 cmd/hangulize/main.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cmd/hangulize/main.go b/cmd/hangulize/main.go
index 4376230..035ac86 100644
--- a/cmd/hangulize/main.go
+++ b/cmd/hangulize/main.go
@@ -49,12 +49,7 @@ func hangulizeStream(cmd *cobra.Command, args []string, h hangulize.Hangulizer)
 	ch := make(chan string)
 	go readWords(ch, args)
 
-	for {
-		word := <-ch
-		if word == "" {
-			break
-		}
-
+	for word := range ch {
 		var (
 			result string
 			traces []hangulize.Trace
@@ -80,15 +75,22 @@ func hangulizeStream(cmd *cobra.Command, args []string, h hangulize.Hangulizer)
 }
 
 func readWords(ch chan<- string, args []string) {
+	defer close(ch)
+
 	if len(args) == 1 {
 		reader := bufio.NewReader(os.Stdin)
 		for {
 			word, err := reader.ReadString('\n')
+
+			// The last line may not end with a newline.
+			word = strings.TrimSpace(word)
+			if word != "" {
+				ch <- word
+			}
+
 			if err != nil {
 				break
 			}
-			word = strings.TrimSpace(word)
-			ch <- word
 		}
 	} else {
 		for _, word := range args[1:] {
@@ -97,5 +99,4 @@ func readWords(ch chan<- string, args []string) {
 			}
 		}
 	}
-	ch <- ""
 }
-- 
2.43.0


From 09d650380cb11c876827cb908dba727815604e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:25 +0000
Subject: [PATCH 17/22] fix: install translits for the dev and test commands

The specs requiring a translit could not be developed or tested.
---
 cmd/hangulize/dev.go  | 2 ++
 cmd/hangulize/test.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/hangulize/dev.go b/cmd/hangulize/dev.go
index 7a649ae..4ed291c 100644
--- a/cmd/hangulize/dev.go
+++ b/cmd/hangulize/dev.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -32,6 +33,7 @@ var devCmd = &cobra.Command{
 
 		// Test the spec.
 		h := hangulize.New(spec)
+		translit.Install(h)
 		hangulizeStream(cmd, args, h)
 		return nil
 	},
diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5b3876..e831868 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -62,6 +63,7 @@ var testCmd = &cobra.Command{
 				traces   []hangulize.Trace
 			)
 			h := hangulize.New(spec)
+			translit.Install(h)
 
 			// Run test.
 			for _, exm := range spec.Test {
-- 
2.43.0


From d7d6fabffc91a63d1086dc0c5567a0f05f17bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 18/22] fix: write a complete coverage profile

An existing longer profile left its tail, a spec without rewrite or transcribe
rules panicked, and the order of files was random.
---
 cmd/hangulize/cover.go | 16 +++++++++++++---
 cmd/hangulize/test.go  |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 3c4af39..b76a65a 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 
 	"github.com/hangulize/hangulize"
 	"github.com/hangulize/hangulize/pkg/hsl"
@@ -97,7 +98,13 @@ func (c *cover) WriteProfile(w io.Writer) error {
 		return fmt.Errorf("cover: %w", err)
 	}
 
+	names := make([]string, 0, len(c.names))
 	for name := range c.names {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
 		file, err := os.Open(name)
 		if err != nil {
 			return fmt.Errorf("cover: %w", err)
@@ -115,7 +122,10 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			return fmt.Errorf("cover: %w", err)
 		}
 
-		spec, _ := hangulize.ParseSpec(file)
+		spec, err := hangulize.ParseSpec(file)
+		if err != nil {
+			return fmt.Errorf("cover: %w", err)
+		}
 
 		if _, err := file.Seek(0, 0); err != nil {
 			return fmt.Errorf("cover: %w", err)
@@ -128,16 +138,16 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			cols = append(cols, col)
 		}
 
-		rewritePairs := hsl["rewrite"].Pairs()
 		for _, rule := range spec.Rewrite {
+			rewritePairs := hsl["rewrite"].Pairs()
 			line := rewritePairs[rule.ID].Line()
 			col := cols[line-1]
 			covered := btoi(c.Covered(name, "Rewrite", rule.ID))
 			fmt.Fprintf(w, template, name, line, line, col, covered)
 		}
 
-		transcribePairs := hsl["transcribe"].Pairs()
 		for _, rule := range spec.Transcribe {
+			transcribePairs := hsl["transcribe"].Pairs()
 			line := transcribePairs[rule.ID].Line()
 			col := cols[line-1]
 			covered := btoi(c.Covered(name, "Transcribe", rule.ID))
diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index e831868..c5c6e21 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -112,7 +112,7 @@ var testCmd = &cobra.Command{
 		if testCoverProfile != "" {
 			file, err := os.OpenFile(
 				testCoverProfile,
-				os.O_WRONLY|os.O_CREATE,
+				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
 				0644,
 			)
 			if err != nil {
-- 
2.43.0


From 727c0ae2a81d1307d2b728773fffc78b0a26084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 19/22] fix: answer an unknown scheme with an error instead of
 crashing the module

---
 cmd/cyrillic.translit.wasm/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/cyrillic.translit.wasm/main.go b/cmd/cyrillic.translit.wasm/main.go
index 1136197..37ec77d 100644
--- a/cmd/cyrillic.translit.wasm/main.go
+++ b/cmd/cyrillic.translit.wasm/main.go
@@ -15,7 +15,12 @@ var jsTransliterate = js.FuncOf(func(this js.Value, args []js.Value) any {
 	scheme := args[0].String()
 	word := args[1].String()
 
-	result, err := translits[scheme].Transliterate(word)
+	t, ok := translits[scheme]
+	if !ok {
+		return js.Global().Get("Error").New("unknown scheme: " + scheme)
+	}
+
+	result, err := t.Transliterate(word)
 	if err != nil {
 		return js.Global().Get("Error").New(err.Error())
 	}
-- 
2.43.0


From d60716b92dac28acf215dc58b14ca97084ef71c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 20/22] fix: settle every promise and release its callbacks in
 the wasm module

An exception or a non-Error rejection from JavaScript crashed the whole
module, and three callbacks leaked for each word.
---
 cmd/hangulize.wasm/hangulize.go | 17 +++++++++++++++--
 cmd/hangulize.wasm/translit.go  | 13 ++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/cmd/hangulize.wasm/hangulize.go b/cmd/hangulize.wasm/hangulize.go
index 95e964a..65617d9 100644
--- a/cmd/hangulize.wasm/hangulize.go
+++ b/cmd/hangulize.wasm/hangulize.go
@@ -3,6 +3,7 @@
 package main
 
 import (
+	"fmt"
 	"syscall/js"
 
 	"github.com/hangulize/hangulize"
@@ -20,7 +21,11 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 		traceFn = args[2]
 	}
 
-	return js.Global().Get("Promise").New(js.FuncOf(func(this js.Value, args []js.Value) any {
+	var executor js.Func
+	executor = js.FuncOf(func(this js.Value, args []js.Value) any {
+		// A Promise calls its executor only once.
+		defer executor.Release()
+
 		resolve := args[0]
 		reject := args[1]
 
@@ -31,6 +36,13 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 		// Blocking code needs a new goroutine to avoid deadlock in a
 		// JavaScript build.
 		go func() {
+			// A JavaScript function may throw.
+			defer func() {
+				if r := recover(); r != nil {
+					throw(fmt.Errorf("%v", r))
+				}
+			}()
+
 			spec, err := hangulize.LoadSpec(lang)
 			if err != nil {
 				throw(err)
@@ -58,5 +70,6 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 		}()
 
 		return nil
-	}))
+	})
+	return js.Global().Get("Promise").New(executor)
 })
diff --git a/cmd/hangulize.wasm/translit.go b/cmd/hangulize.wasm/translit.go
index 17e7c86..fc651e8 100644
--- a/cmd/hangulize.wasm/translit.go
+++ b/cmd/hangulize.wasm/translit.go
@@ -16,6 +16,15 @@ type promiseTranslit struct {
 	fn     js.Value
 }
 
+// jsErrorMessage describes a value which a Promise has been rejected with. It
+// is usually, but not always, an Error.
+func jsErrorMessage(v js.Value) string {
+	if v.Type() == js.TypeObject {
+		v = v.Get("message")
+	}
+	return js.Global().Call("String", v).String()
+}
+
 func (t promiseTranslit) Scheme() string {
 	return t.scheme
 }
@@ -36,12 +45,14 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 		thenCh <- result
 		return nil
 	})
+	defer then.Release()
 
 	catch := js.FuncOf(func(this js.Value, args []js.Value) any {
-		err := errors.New(args[0].Get("message").String())
+		err := errors.New(jsErrorMessage(args[0]))
 		catchCh <- err
 		return nil
 	})
+	defer catch.Release()
 
 	p.fn.Invoke(word).Call("then", then).Call("catch", catch)
 
-- 
2.43.0


From 25b0a34ba8571294ff5e6d83483e207ceb9ba9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 21/22] fix: fail the test command when an example cannot be
 transcribed

---
 cmd/hangulize/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5c6e21..f007292 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -90,7 +90,7 @@ var testCmd = &cobra.Command{
 					}
 				}
 
-				if result == expected {
+				if err == nil && result == expected {
 					continue
 				}
 
-- 
2.43.0


From fe4ce707ac28cc2d8ed3fba3849ffa32aac12574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 22/22] fix: survive a rejection whose message cannot be read

---
 cmd/hangulize.wasm/translit.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/hangulize.wasm/translit.go b/cmd/hangulize.wasm/translit.go
index fc651e8..040862d 100644
--- a/cmd/hangulize.wasm/translit.go
+++ b/cmd/hangulize.wasm/translit.go
@@ -18,9 +18,16 @@ type promiseTranslit struct {
 
 // jsErrorMessage describes a value which a Promise has been rejected with. It
 // is usually, but not always, an Error.
-func jsErrorMessage(v js.Value) string {
+func jsErrorMessage(v js.Value) (msg string) {
+	// Reading the message may throw. Only a throw in a call can be recovered.
+	defer func() {
+		if recover() != nil {
+			msg = "unknown error"
+		}
+	}()
+
 	if v.Type() == js.TypeObject {
-		v = v.Get("message")
+		v = js.Global().Get("Reflect").Call("get", v, "message")
 	}
 	return js.Global().Call("String", v).String()
 }
-- 
2.43.0

