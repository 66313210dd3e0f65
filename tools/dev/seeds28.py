exec(open('/tmp/seeds27.py').read().split("s('C27-repeated-pair'")[0])
T='trace.go';RU='rule.go';H='hangulize.go';TI='translit/translit.go';PT='pkg/hre/pattern.go';SP='specs.go'
FN=''
s('C20-back-again','C20',[(T,'	if len(r.records) < rule.ID+1 {','	if word == r.subwords[i].Word {\n		return // nothing to show\n	}\n\n	if len(r.records) < rule.ID+1 {'),(T,'	for _, rec := range r.records {\n','	for _, rec := range r.records {\n		if rec == nil {\n			continue\n		}\n')],'a rule that makes a word again what it was before the rules','the events end with a word that is not the one the rules have made',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''rewrite:
    "b" -> "c"
    "c" -> "b"
`))
	last := ""
	h.Trace(func(tr hangulize.Trace) {
		if tr.Step == "Rewrite" {
			last = tr.Word
		}
	})
	h.Hangulize("aba")
	if last != "aba" {
		t.Fatal(last)
	}
}
''')
s('C16-find-limit','C16',[(RU,'	for _, m := range r.From.Find(word, -1) {\n','	for _, m := range r.From.Find(word, len(word)/4+4) {\n')],'a word in which a rule has more matches than a quarter of its length and four','the matches after that are left as they are',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''transcribe:
    "b" -> "가"
`))
	w, err := h.Hangulize(strings.Repeat("b", 30))
	if err != nil || w != strings.Repeat("가", 30) {
		t.Fatal(w, err)
	}
}
''')
s('C21-keep-for-empty','C21',[(PT,'		if err == nil {\n			buf','		if err == nil && (repl != "" || n < 0) {\n			buf')],'a replacement that is empty, with a limit of matches','what is matched stays where it should be taken away','''package hre

import "testing"

func TestDemo(t *testing.T) {
	p, err := NewPattern("b", nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	if w := p.Replace("abc", NewRPattern("", nil, nil), 1); w != "ac" {
		t.Fatal(w)
	}
}
''',pkg='pkg/hre')
s('C06-shared-by-spec','C06',[(H,'func New(spec *Spec) Hangulizer {\n	return &hangulizer{spec, make(translitRegistry), nil}','var registries sync.Map\n\nfunc New(spec *Spec) Hangulizer {\n	r, _ := registries.LoadOrStore(spec, make(translitRegistry))\n	return &hangulizer{spec, r.(translitRegistry), nil}'),(H,'package hangulize\n','package hangulize\n\nimport "sync"\n')],'two hangulizers of one spec','a translit used in one is there in the other',HEAD+'''func TestDemo(t *testing.T) {
	sp := spec(t, `'''+LANG+'''`)
	a, b := hangulize.New(sp), hangulize.New(sp)
	a.UseTranslit(fn{"up", func(w string) (string, error) { return w, nil }})
	if len(b.Translits()) != 0 {
		t.Fatal("shared")
	}
}
''')
s('C07-rollback-last','C07',[(TI,'			for j := 0; j < i; j++ {\n				unuseTranslit(ts[j].Scheme())\n			}','			if i > 0 {\n				unuseTranslit(ts[i-1].Scheme())\n			}')],'a hangulizer that has the last of the translits already','of those installed before the refused one only the last is taken back','''package translit_test

import (
	"testing"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
)

type tt struct{ s string }

func (t tt) Scheme() string                       { return t.s }
func (tt) Transliterate(w string) (string, error) { return w, nil }

func TestDemo(t *testing.T) {
	ts := translit.Translits()
	h := hangulize.New(&hangulize.Spec{})
	h.UseTranslit(tt{ts[len(ts)-1].Scheme()})
	if translit.Install(h) || len(h.Translits()) != 1 {
		t.Fatal("left behind", len(h.Translits()))
	}
}
''',pkg='translit')
s('C12-cut-ahead','C12',[(PT,'			if p.negA.MatchString(word[stop:]) {','			ahead := word[stop:]\n			if p.negAWidth != -1 && len(ahead) > p.negAWidth+1 {\n				ahead = ahead[:p.negAWidth+1]\n			}\n			if p.negA.MatchString(ahead) {')],'a negative lookahead of letters of more than one byte','the letters the lookahead forbids are cut in two and not seen','''package hre

import "testing"

func TestDemo(t *testing.T) {
	p, err := NewPattern("b{~가나}", nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	if m := p.Find("b가나", -1); len(m) != 0 {
		t.Fatal(m)
	}
}
''',pkg='pkg/hre')
s('C18-unload-folds','C18',[(SP,'	delete(specs, lang)','	for name := range specs {\n		if strings.EqualFold(name, lang) {\n			delete(specs, name)\n		}\n	}')],'unloading a language by a name in capital letters','a language of another name is unloaded','''package hangulize_test

import (
	"testing"

	"github.com/hangulize/hangulize"
)

func TestDemo(t *testing.T) {
	a, _ := hangulize.LoadSpec("ita")
	hangulize.UnloadSpec("ITA")
	b, _ := hangulize.LoadSpec("ita")
	if a != b {
		t.Fatal("ita has been unloaded")
	}
}
''')
s('C27-last-answer','C27',[('spec.go','			exm := [2]string{word, right[0]}','			exm := [2]string{word, right[len(right)-1]}')],'a test with more than one value','the test expects the last of its values',HEAD+'''func TestDemo(t *testing.T) {
	s := spec(t, `'''+LANG+'''test:
    "a" -> "가", "나"
`)
	if s.Test[0][1] != "가" {
		t.Fatal(s.Test)
	}
}
''')
