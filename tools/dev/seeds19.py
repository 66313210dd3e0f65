exec(open('/tmp/seeds2.py').read().split("s('C06-own-map'")[0])
H='''package hangulize_test

import (
	"strings"
	"testing"

	"github.com/hangulize/hangulize"
)

func spec(t *testing.T, src string) *hangulize.Spec {
	s, err := hangulize.ParseSpec(strings.NewReader(src))
	if err != nil {
		t.Fatal(err)
	}
	return s
}

func keeps(t *testing.T, lang, word, want string) {
	got, err := hangulize.Hangulize(lang, word)
	if err != nil {
		t.Fatal(err)
	}
	if got != want {
		t.Fatalf("%q: %q, not %q", word, got, want)
	}
}
'''
s('C19-single-phoneme','C19',[('procedure.go','''			buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
			jamoBuf.Reset()

''','''			if jamoBuf.Len() > len("\u314f") {
				buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
				jamoBuf.Reset()
			}

''')],'a word of a single vowel directly before foreign text','the syllable comes after the foreign text instead of before it',H+'''
func TestDemo(t *testing.T) {
	keeps(t, "ita", "a1", "아1")
	keeps(t, "ita", "a1b", "아1브")
	keeps(t, "ita", "123", "123")
}
''')
s('C19-format','C19',[('procedure.go','''		case hasSpaceOnly(letStr):
			rep''','''		case unicode.In(let, unicode.Cf, unicode.Zs), hasSpaceOnly(letStr):
			rep''')],'an invisible format letter such as a joiner of emoji in the word','the letter vanishes, so that a joined emoji falls apart',H+'''
func TestDemo(t *testing.T) {
	family := "\\U0001f468\\u200d\\U0001f469"
	keeps(t, "ita", family, family)
	keeps(t, "ita", "a "+family, "아 "+family)
}
''')
s('C19-no-rules','C19',[('procedure.go','''		swBuf.Write(rep.Subwords()...)
	}

	return swBuf.Subwords()''','''		if level == 0 && word != sw.Word {
			// Rules must not touch meaningless letters.
			swBuf.Write(sw)
			continue
		}

		if len(word) > 0 && word != "\\x00" {
			swBuf.Write(rep.Subwords()...)
		}
	}

	return swBuf.Subwords()''')],'a NUL letter on its own between words','the letter is lost',H+'''
func TestDemo(t *testing.T) {
	keeps(t, "ita", "a\\x00a", "아\\x00아")
}
''')
s('C19-merge-tail','C19',[('internal/subword/builder.go','''	merged := New(buf.String(), mergingLevel)
	subwords = append(subwords, merged)

	return subwords''','''	if merged := New(buf.String(), mergingLevel); merged.Level > 0 || len(subwords)%2 == 0 || len(subwords) < 5 {
		subwords = append(subwords, merged)
	}

	return subwords''')],'a word with three or more runs of foreign text, the last one at the end','the foreign text at the end is lost',H+'''
func TestDemo(t *testing.T) {
	keeps(t, "ita", "a1a1", "아1아1")
	keeps(t, "ita", "a1a2a3", "아1아2아3")
	keeps(t, "ita", "a1a2a3a4", "아1아2아3아4")
}
''')
