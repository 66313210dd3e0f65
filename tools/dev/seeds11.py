exec(open('/tmp/seeds2.py').read().split("s('C06-own-map'")[0])
HRE='''package hre_test

import (
	"testing"

	"github.com/hangulize/hangulize/pkg/hre"
)

func pat(t *testing.T, e string, vars map[string][]string) *hre.Pattern {
	p, err := hre.NewPattern(e, nil, vars)
	if err != nil {
		t.Fatal(err)
	}
	return p
}
'''
SP='''package hangulize_test

import (
	"strings"
	"testing"

	"github.com/hangulize/hangulize"
)

func spec(t *testing.T, src string) *hangulize.Spec {
	s, err := hangulize.ParseSpec(strings.NewReader(src))
	if err != nil {
		t.Fatal(err)
	}
	return s
}
'''
s('C11-far-groups','C11',[('pkg/hre/pattern.go','''		for i := range m {
			if m[i] != -1 {''','''		for i := range m {
			if m[i] != -1 && i < 18 {''')],'a rule with more than six variables, and a second match in the word','the positions of the last variables of a second match are those in the rest of the word','''package hre_test

import (
	"testing"

	"github.com/hangulize/hangulize/pkg/hre"
)

func TestDemo(t *testing.T) {
	vars := map[string][]string{"v": {"a", "b", "c"}, "w": {"A", "B", "C"}}
	p, err := hre.NewPattern("<v><v><v><v><v><v><v><v>x", nil, vars)
	if err != nil {
		t.Fatal(err)
	}
	ms := p.Find("aaaaaaaaxaaaaaaabx", -1)
	if len(ms) != 2 {
		t.Fatal(ms)
	}
	m := ms[1]
	for i := 2; i+1 < len(m); i += 2 {
		if m[i] < m[0] || m[i+1] > m[1] {
			t.Fatal("a group outside of its match", m)
		}
	}
}
''',pkg='pkg/hre')
s('C11-keep-empty','C11',[('procedure.go','''			for _, repl := range repls {
				nulls''','''			for _, repl := range repls {
				if repl.Word == "" {
					// nothing to hide
					continue
				}
				nulls''')],'a transcribe rule which deletes letters, and a later rule which matches after them','the mask is longer than the text being replaced, so later matches land too far right','''package hangulize_test

import (
	"strings"
	"testing"

	"github.com/hangulize/hangulize"
)

func TestDemo(t *testing.T) {
	s, err := hangulize.ParseSpec(strings.NewReader(`
lang:
    id     = "xxx"
    codes  = "xx", "xxx"
    english = "X"
    korean = "X"
    script = "Latn"

transcribe:
    "h" -> ""
    "a" -> "ㅏ"
    "k" -> "ㄱ"
`))
	if err != nil {
		t.Fatal(err)
	}
	got, err := hangulize.New(s).Hangulize("hka")
	if err != nil || got != "가" {
		t.Fatalf("%q %v", got, err)
	}
}
''')
s('C11-copy-deleted','C11',[('pkg/hre/pattern.go','''		cur = stop
	}
	buf''','''		cur = stop
		if repl == "" && n == 1 {
			cur = start
		}
	}
	buf''')],'replacing one match with nothing','the matched text stays','''package hre_test

import (
	"testing"

	"github.com/hangulize/hangulize/pkg/hre"
)

func TestDemo(t *testing.T) {
	p, err := hre.NewPattern("b", nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	if got := p.Replace("abc", hre.NewRPattern("", nil, nil), 1); got != "ac" {
		t.Fatal(got)
	}
}
''',pkg='pkg/hre')
s('C11-long-mask','C11',[('procedure.go','				nulls := strings.Repeat("\\x00", len(repl.Word))\n','				n := len(repl.Word)\n				if n > 64 {\n					n = 64\n				}\n				nulls := strings.Repeat("\\x00", n)\n')],'a transcribe rule whose replacement is longer than 64 bytes, and a later rule which matches after it','the mask is shorter than the replacement, so later matches land too far left','''package hangulize_test

import (
	"strings"
	"testing"

	"github.com/hangulize/hangulize"
)

func TestDemo(t *testing.T) {
	s, err := hangulize.ParseSpec(strings.NewReader(`
lang:
    id     = "xxx"
    codes  = "xx", "xxx"
    english = "X"
    korean = "X"
    script = "Latn"

transcribe:
    "h" -> "` + strings.Repeat("ㄱㅏ", 12) + `"
    "a" -> "ㅏ"
    "k" -> "ㄱ"
`))
	if err != nil {
		t.Fatal(err)
	}
	got, err := hangulize.New(s).Hangulize("hka")
	if want := strings.Repeat("가", 13); err != nil || got != want {
		t.Fatalf("%q %v", got, err)
	}
}
''')
