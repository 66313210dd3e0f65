exec(open('/tmp/seeds27.py').read().split("s('C27-repeated-pair'")[0])
PR='procedure.go';T='trace.go';JA='internal/jamo/jamo.go'
s('C16-same-translit','C16',[(PR,'	for _, scheme := range p.spec.Lang.Translit {\n','	seen := make(map[string]bool)\n	for _, scheme := range p.spec.Lang.Translit {\n		if seen[scheme] {\n			continue\n		}\n		seen[scheme] = true\n')],'a spec that goes through one translit twice','the second round of a translit is skipped',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''    translit = up, other, up
`))
	n := 0
	up := func(w string) (string, error) { n++; return w + "가", nil }
	h.UseTranslit(fn{"up", up})
	h.UseTranslit(fn{"other", up})
	h.Hangulize("b")
	if n != 3 {
		t.Fatal(n)
	}
}
''')
s('C09-colon-in-values','C09',[(P,'		if tok == Comma {\n			continue\n		}\n','		if tok == Colon {\n			for tok != Newline {\n				tok, _, _ = p.scan()\n			}\n		}\n		if tok == Comma {\n			continue\n		}\n')],'a colon among the values of the last line of a source without newline','the rest of a line after a colon is skipped up to a newline that never comes','''package hsl_test

import (
	"strings"
	"testing"
	"time"

	"github.com/hangulize/hangulize/pkg/hsl"
)

func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		hsl.Parse(strings.NewReader("lang:\\nid = a : b"))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("parsing does not end")
	}
}
''',pkg='pkg/hsl')
s('C03-unknown-sections','C03',[(Q,'	source := sourceBuf.String()\n','	source := sourceBuf.String()\n	for name, sec := range h {\n		if _, ok := sec.(*hsl.ListSection); ok && name != "rewrite" && name != "transcribe" && name != "test" {\n			return nil, errors.Errorf("%s is no list section", name)\n		}\n	}\n')],'a spec with two sections of the wrong kind','which of them the error names depends on the order of a map',HEAD+'''func TestDemo(t *testing.T) {
	first := ""
	for i := 0; i < 200; i++ {
		_, err := hangulize.ParseSpec(strings.NewReader("vars:\\n\\"a\\" -> \\"b\\"\\nmacros:\\n\\"a\\" -> \\"b\\"\\nnormalize:\\n\\"a\\" -> \\"b\\"\\n"))
		if err == nil {
			t.Fatal("no error")
		}
		if first == "" {
			first = err.Error()
		}
		if err.Error() != first {
			t.Fatal(err, first)
		}
	}
}
''')
MAINS=open('/repo/cmd/hangulize/main.go').read()
RD=MAINS[MAINS.index("		reader := bufio.NewReader(os.Stdin)"):MAINS.index("	} else {\n		for _, word := range args[1:]")]
s('C13-scanner','C13',[('cmd/hangulize/main.go',RD,'''		scanner := bufio.NewScanner(os.Stdin)
		for scanner.Scan() {
			if word := strings.TrimSpace(scanner.Text()); word != "" {
				ch <- word
			}
		}
''')],'a line of the standard input of more than 64 KiB','reading stops silently at a long line, and the command succeeds','',demo_sh='''#!/bin/bash
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
go build -o "$t/hangulize" ./cmd/hangulize || exit 2
{ printf '%100000s\\n' ''; echo gloria; } | "$t/hangulize" ita > "$t/out" || exit 1
test "$(cat "$t/out")" = 글로리아
''')
s('C17-zero-width','C17',[(JA,'		if err != nil {\n			return 0, false, err\n		}\n','		if err != nil {\n			return 0, false, err\n		}\n		if ch == \'\\u200b\' {\n			continue\n		}\n')],'a zero width space between phonemes','zero width spaces are dropped by the composer','''package jamo_test

import (
	"testing"

	"github.com/hangulize/hangulize/internal/jamo"
)

func TestDemo(t *testing.T) {
	if s := jamo.ComposeHangul("x\\u200by"); s != "x\\u200by" {
		t.Fatalf("%q", s)
	}
}
''',pkg='internal/jamo')
s('C19-null','C19',[(PR,'	word := buf.String()\n	p.tracer.Syllabify','	word := strings.TrimRight(buf.String(), "\\x00")\n	p.tracer.Syllabify')],'a word that ends with a NUL','the NUL, which no spec gives a meaning, is dropped',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''`))
	if s, _ := h.Hangulize("\\x01\\x00"); s != "\\x01\\x00" {
		t.Fatalf("%q", s)
	}
}
''')
s('C20-empty-word','C20',[(T,'	if r.prevWord == t.Word {','	if r.prevWord == t.Word || t.Word == "" {')],'a step which leaves nothing of the word','the event of a step that empties the word is left out',HEAD+'''func TestDemo(t *testing.T) {
	h := hangulize.New(spec(t, `'''+LANG+'''    translit = up
`))
	h.UseTranslit(fn{"up", func(w string) (string, error) { return "", nil }})
	var got []string
	h.Trace(func(tr hangulize.Trace) { got = append(got, tr.Step+":"+tr.Word) })
	h.Hangulize("b")
	if len(got) < 2 || got[1] != "Transliterate:" {
		t.Fatal(got)
	}
}
''')
s('C18-extension','C18',[(Q.replace('spec.go','specs.go') ,'	filename := "specs/" + lang + ext','	lang = strings.TrimSuffix(lang, ext)\n	filename := "specs/" + lang + ext')],'a language named with the extension of its file','a spec is cached under the name of another language than the one unloaded later','')
S=[x for x in S if x['id']!='C18-extension']
