exec(open('/tmp/seeds2.py').read().split("s('C06-own-map'")[0])
exec("HEAD='''"+open('/tmp/seeds2.py').read().split("HEAD='''")[1].split("'''")[0]+"'''")
LANG='lang:\n    id = x\n    codes = x, xxx\n    english = X\n    korean = 엑스\n    script = Latn\n'
P='pkg/hsl/parser.go';L='pkg/hsl/lexer.go';S_='pkg/hsl/structures.go';Q='spec.go'
HSLHEAD='''package hsl_test

import (
	"reflect"
	"strings"
	"testing"

	"github.com/hangulize/hangulize/pkg/hsl"
)

var _ = reflect.DeepEqual

func parse(t *testing.T, src string) hsl.HSL {
	h, err := hsl.Parse(strings.NewReader(src))
	if err != nil {
		t.Fatal(err)
	}
	return h
}

'''
s('C27-repeated-pair','C27',[(S_,"	s.pairs = append(s.pairs, Pair{l, r, liner{line}})",'''	pair := Pair{l, r, liner{line}}
	if n := len(s.pairs); n > 0 && s.pairs[n-1].String() == pair.String() {
		return nil // written twice
	}
	s.pairs = append(s.pairs, pair)''')],'a rule written twice in a row','the second of two equal rules, which rewrites what the first has made, is left out of the spec',HSLHEAD+'''func TestDemo(t *testing.T) {
	h := parse(t, "rewrite:\\n\\"aa\\" -> \\"a\\"\\n\\"aa\\" -> \\"a\\"\\n")
	if n := len(h["rewrite"].Pairs()); n != 2 {
		t.Fatal(n)
	}
}
''',pkg='pkg/hsl')
s('C27-carriage-return','C27',[(L,"		buf.WriteRune(ch)\n	}\n\n	return String, buf","		if ch != '\\r' {\n			buf.WriteRune(ch)\n		}\n	}\n\n	return String, buf")],'a quoted string with a carriage return in it','the carriage return is not in the parsed string',HSLHEAD+'''func TestDemo(t *testing.T) {
	h := parse(t, "test:\\n\\"a\\rb\\" -> \\"c\\"\\n")
	if l := h["test"].Pairs()[0].Left(); l != "a\\rb" {
		t.Fatalf("%q", l)
	}
}
''',pkg='pkg/hsl')
s('C27-same-value','C27',[(P,"			values = append(values, lit)","			if len(values) == 0 || values[len(values)-1] != lit {\n				values = append(values, lit)\n			}")],'two equal values in a row','values that stand beside an equal one are left out',HSLHEAD+'''func TestDemo(t *testing.T) {
	h := parse(t, "lang:\\ncodes = xx, xx\\n")
	if r := h["lang"].Pairs()[0].Right(); !reflect.DeepEqual(r, []string{"xx", "xx"}) {
		t.Fatal(r)
	}
}
''',pkg='pkg/hsl')
s('C27-empty-variable','C27',[(S_,"		m[pair.Left()] = pair.Right()","		if values := pair.Right(); len(values) > 0 {\n			m[pair.Left()] = values\n		}")],'a variable without values','the variable is not in the spec',HEAD+'''func TestDemo(t *testing.T) {
	s := spec(t, `'''+LANG+'''vars:
    "none" =
    "one" = "a"
`)
	if _, ok := s.Vars["none"]; !ok || len(s.Vars) != 2 {
		t.Fatal(s.Vars)
	}
}
''')
s('C27-reopened-section','C27',[(P,"			sectionName = lastString\n","			if _, ok := hsl[lastString]; !ok {\n				sectionName = lastString\n			}\n")],'a section that is continued after another one','the pairs of a section which is opened again stand in the section before it',HSLHEAD+'''func TestDemo(t *testing.T) {
	h := parse(t, "rewrite:\\na -> b\\ntranscribe:\\nc -> d\\nrewrite:\\ne -> f\\n")
	if n := len(h["rewrite"].Pairs()); n != 2 {
		t.Fatal(n)
	}
}
''',pkg='pkg/hsl')
