S=[]
def s(id,prop,edits,needs,breaks,demo,pkg='.',**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,pkg=pkg,files={'demo_test.go.txt':demo},**k))
s('C06-own-map','C06',[('translit.go','''	copied := make(map[string]Translit, len(r))
	for''','''	copied := map[string]Translit(r)
	if len(r) > 0 {
		copied = make(map[string]Translit, len(r))
	}
	for''')],'a listing of an empty registry that the caller changes','the map of an empty registry itself is handed out','''package hangulize_test

import (
	"testing"

	"github.com/hangulize/hangulize"
)

type tt struct{}

func (tt) Scheme() string                         { return "demo" }
func (tt) Transliterate(w string) (string, error) { return w, nil }

func TestDemo(t *testing.T) {
	h := hangulize.New(&hangulize.Spec{})
	h.Translits()["demo"] = tt{}
	if len(h.Translits()) != 0 {
		t.Fatal("a listing changed the registry")
	}
}
''')
HEAD='''package hangulize_test

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/hangulize/hangulize"
)

var _ = errors.New
var _ = fmt.Sprint

type fn struct {
	s string
	f func(string) (string, error)
}

func (t fn) Scheme() string                         { return t.s }
func (t fn) Transliterate(w string) (string, error) { return t.f(w) }

func spec(t *testing.T, src string) *hangulize.Spec {
	s, err := hangulize.ParseSpec(strings.NewReader(src))
	if err != nil {
		t.Fatal(err)
	}
	return s
}

'''
LANG='lang:\n    id = x\n    codes = x, xxx\n    english = X\n    korean = 엑스\n    script = Latn\n'
s('C04-tracer-kept','C04',[('hangulize.go','''	traceFunc        func(Trace)
}''','''	tracer           *tracer
}'''),('hangulize.go','	h.traceFunc = fn\n','	h.tracer = newTracer(fn)\n'),('hangulize.go','h.Translits(), h.traceFunc)','h.Translits(), h.tracer)'),('procedure.go','''translits map[string]Translit, traceFunc func(Trace)) *procedure {
	return &procedure{spec, translits, newTracer(traceFunc)}''','''translits map[string]Translit, tracer *tracer) *procedure {
	return &procedure{spec, translits, tracer}''')],'a traced word whose result is the word transcribed next','the tracer, with the last word it has reported, survives the call and swallows the first event of the next',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''`))
	var steps []string
	h.Trace(func(tr hangulize.Trace) { steps = append(steps, tr.Step) })
	h.Hangulize("한")
	first := fmt.Sprint(steps)
	steps = nil
	h.Hangulize("한")
	if s := fmt.Sprint(steps); s != first {
		t.Fatal(first, s)
	}
}
''')
s('C04-drop-failing','C04',[('procedure.go','''		if err != nil {
			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)''','''		if err != nil {
			p.spec.Lang.Translit = without(p.spec.Lang.Translit, scheme)
			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)'''),('procedure.go','''// 2. Normalize (''','''// without copies the schemes, except one which does not work.
func without(schemes []string, broken string) []string {
	var rest []string
	for _, scheme := range schemes {
		if scheme != broken {
			rest = append(rest, scheme)
		}
	}
	return rest
}

// 2. Normalize (''')],'a translit that fails for one word','a failing word takes the scheme out of the spec for all the words after it',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''    translit = up
`))
	h.UseTranslit(fn{"up", func(w string) (string, error) {
		if w == "bad" {
			return "", errors.New("bad")
		}
		return "가", nil
	}})
	a, _ := h.Hangulize("b")
	h.Hangulize("bad")
	b, _ := h.Hangulize("b")
	if a != b {
		t.Fatal(a, b)
	}
}
''')
s('C05-gaps','C05',[('procedure.go','''			traceSubword(i, rep.String(), rule)
''','''			if len(repls) != 0 {
				traceSubword(i, rep.String(), rule)
			}
''')],'a traced word that begins with something meaningless','the records have gaps, and the trace panics where the word alone does not',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''transcribe:
    "q" -> "k"
    "a" -> "ㅏ"
`))
	a, _ := h.Hangulize("1a")
	h.Trace(func(hangulize.Trace) {})
	b, _ := h.Hangulize("1a")
	if a != b {
		t.Fatal(a, b)
	}
}
''')
s('C05-live-rule','C05',[('trace.go','type subwordsTracerRecord struct {\n	rule Rule\n','type subwordsTracerRecord struct {\n	rule *Rule\n'),
 ('trace.go','Rule: &rec.rule}','Rule: rec.rule}'),('trace.go','func (r *subwordsTracer) RecordSubword(i int, word string, rule Rule) {','func (r *subwordsTracer) RecordSubword(i int, word string, rule *Rule) {'),
 ('trace.go','func (r *tracer) Rewrite(subwords []subword.Subword) (func(int, string, Rule), func())','func (r *tracer) Rewrite(subwords []subword.Subword) (func(int, string, *Rule), func())'),
 ('trace.go','func (r *tracer) Transcribe(subwords []subword.Subword) (func(int, string, Rule), func())','func (r *tracer) Transcribe(subwords []subword.Subword) (func(int, string, *Rule), func())'),
 ('procedure.go','			traceRecordSubword(i, word, rule)','			traceRecordSubword(i, word, &p.spec.Rewrite[id])'),('procedure.go','for _, rule := range p.spec.Rewrite {','for id, rule := range p.spec.Rewrite {'),
 ('procedure.go','			traceSubword(i, rep.String(), rule)','			traceSubword(i, rep.String(), &p.spec.Transcribe[id])'),('procedure.go','for _, rule := range p.spec.Transcribe {','for id, rule := range p.spec.Transcribe {')],
 'a trace function that changes the rule it is given','events carry the rules of the spec themselves',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''rewrite:
    "a" -> "e"
transcribe:
    "a" -> "ㅏ"
    "e" -> "ㅔ"
`))
	a, _ := h.Hangulize("a")
	h.Trace(func(tr hangulize.Trace) {
		if tr.Rule != nil {
			tr.Rule.To = tr.Rule.To
			other := h.Spec().Transcribe[0]
			tr.Rule.From = other.From
			tr.Rule.To = other.To
		}
	})
	h.Hangulize("a")
	b, _ := h.Hangulize("a")
	if a != b {
		t.Fatal(a, b)
	}
}
''')
s('C16-stop-unchanged','C16',[('procedure.go','''		var err error
		word, err = t.Transliterate(word)
''','''		before := word

		var err error
		word, err = t.Transliterate(word)
'''),('procedure.go','''		p.tracer.Transliterate(word, t.Scheme())
''','''		p.tracer.Transliterate(word, t.Scheme())

		if word == before && len(p.translits) > 1 {
			// Not a word for the translits.
			break
		}
''')],'a spec with two translits of which the first leaves a word as it is','the later translits are skipped for words the first does not change',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''    translit = one, two
`))
	h.UseTranslit(fn{"one", func(w string) (string, error) { return w, nil }})
	h.UseTranslit(fn{"two", func(w string) (string, error) { return "가", nil }})
	if a, _ := h.Hangulize("b"); a != "가" {
		t.Fatal(a)
	}
}
''')
s('C16-long-word','C16',[('procedure.go',"""	word = p.normalize(word)

	// phase: transc""","""	word = p.normalize(word)

	if len(word) > 4096 {
		// Too long to be a word.
		return word, nil
	}

	// phase: transc""")],'a word of more than 4096 bytes','a long word is returned after the normalization',HEAD+"""func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `"""+LANG+"""transcribe:
    "a" -> "ㅏ"
`))
	if a, _ := h.Hangulize(strings.Repeat("a", 5000)); a != strings.Repeat("아", 5000) {
		t.Fatal(len(a))
	}
}
""")
s('C16-plain-skip','C16',[('procedure.go','''	subwords = p.rewrite(subwords)
	subwords = p.transcribe(subwords)
''','''	if len(subwords) != 1 || subwords[0].Level != 0 || len(subwords[0].Word) < 4 {
		subwords = p.rewrite(subwords)
	}
	subwords = p.transcribe(subwords)
''')],'a word without any letter of the script and a rule about other letters','the rewrite step is skipped for a word with no letters of the script',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''rewrite:
    "1" -> "i"
transcribe:
    "i" -> "ㅣ"
`))
	if a, _ := h.Hangulize("1111"); a != "이이이이" {
		t.Fatal(a)
	}
}
''')
s('C20-late-input','C20',[('procedure.go','''	p.tracer.Input(word)

	// phase: preparing
	word, err := p.transliterate(word)
''','''	// phase: preparing
	word, err := p.transliterate(word)
'''),('procedure.go','''	word = p.normalize(word)

	// phase: transc''','''	p.tracer.Input(word)
	word = p.normalize(word)

	// phase: transc''')],'a traced word of a spec with a translit','the trace begins with the transliteration instead of the input',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''    translit = one
`))
	h.UseTranslit(fn{"one", func(w string) (string, error) { return "가", nil }})
	var tr []hangulize.Trace
	h.Trace(func(t hangulize.Trace) { tr = append(tr, t) })
	h.Hangulize("b")
	if len(tr) == 0 || tr[0].Step != "Input" || tr[0].Word != "b" {
		t.Fatal(tr)
	}
}
''')
s('C20-rule-repeat','C20',[('trace.go','	if r.prevWord == t.Word {\n','	if r.prevWord == t.Word && (t.Rule == nil || t.Rule.ID == 0) {\n')],'a rule after the first that rewrites a text by itself','two events in a row carry the same word',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''rewrite:
    "q" -> "k"
    "a" -> "a"
`))
	prev := ""
	h.Trace(func(tr hangulize.Trace) {
		if tr.Word == prev {
			t.Fatal("repeated", tr)
		}
		prev = tr.Word
	})
	h.Hangulize("a")
}
''')
s('C03-fold-order','C03',[('pkg/hre/rpattern.go','		return letters[i] < letters[j]\n','		return unicode.ToLower(letters[i]) < unicode.ToLower(letters[j])\n'),('pkg/hre/rpattern.go','import (\n','import (\n	"unicode"\n')],'a replacement with the same letter in both cases','letters that differ only in case come in the order of a map','''package hre_test

import (
	"testing"

	"github.com/hangulize/hangulize/pkg/hre"
)

func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 300; i++ {
		s := string(hre.NewRPattern("abcdefgABCDEFG", nil, nil).Letters())
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatal(first, s)
		}
	}
}
''','pkg/hre')
s('C03-first-error','C03',[('spec.go','import (\n','import (\n	"sync"\n'),('spec.go','		from, err := hre.NewPattern(pair.Left(), macros, vars)\n		if err != nil {\n			return nil, err\n		}\n','		from := froms[i]\n'),('spec.go','	for i, pair := range pairs {\n','''	// Compile the patterns at once.
	froms := make([]*hre.Pattern, len(pairs))
	failures := make(chan error, len(pairs))

	var wg sync.WaitGroup
	for i, pair := range pairs {
		wg.Add(1)
		go func(i int, pair hsl.Pair) {
			defer wg.Done()
			from, err := hre.NewPattern(pair.Left(), macros, vars)
			if err != nil {
				failures <- err
				return
			}
			froms[i] = from
		}(i, pair)
	}
	wg.Wait()

	if len(failures) != 0 {
		return nil, <-failures
	}

	for i, pair := range pairs {
''')],'a spec with more than one broken rule','which rule the error names depends on the scheduling of goroutines',HEAD+'''func TestDemo(t *testing.T) {
	src := `'''+LANG+'''rewrite:
`
	for i := 0; i < 64; i++ {
		src += fmt.Sprintf("    \\"a%d(\\" -> \\"b\\"\\n", i)
	}
	first := ""
	for i := 0; i < 300; i++ {
		_, err := hangulize.ParseSpec(strings.NewReader(src))
		if err == nil {
			t.Fatal("parsed")
		}
		if first == "" {
			first = err.Error()
		}
		if err.Error() != first {
			t.Fatal(first, err)
		}
	}
}
''')
