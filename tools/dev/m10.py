M=[]
U='specs/ukr.hsl'
def m(n,ed,rc=1,c='C10'): M.append((n,c,ed,rc))
m('nullable rule',[(U,'    "бб"                   -> "б"','    "(бб)*"                   -> "б"')])
m('nullable lookahead only',[(U,'    "бб"                   -> "б"','    "{к}"                   -> "б"')])
m('optional',[(U,'    "бб"                   -> "б"','    "б?б?{@}"                   -> "б"')])
m('undefined var',[(U,'"{<cs>}\'{є|ї|й|ю|я|O}"','"{<css>}\'{є|ї|й|ю|я|O}"')])
m('macro dropped',[(U,'    "@" = "<vowels>"','    "@" = "<vowel>"')])
m('scheme typo',[(U,'"cyrillic[ua]"','"cyrillic[uk]"')])
m('script typo',[(U,'"Cyrl"','"Cyr"')])
m('unlimited',[(U,'    "{@}мм{@}"             -> "м,м"','    "{~а+}мм{@}"             -> "м,м"')])
m('unlimited positive ok',[(U,'    "{@}мм{@}"             -> "м,м"','    "{а+}мм{@}"             -> "м,м"')],0)
m('id changed',[(U,'"ukr"\n    codes','"ukra"\n    codes')])
m('one code',[(U,'codes    = "uk", "ukr"','codes    = "uk"')])
m('var uncaptured',[('specs/ell.hsl','"(<sv>)̀"                         -> "(<av>)"','"ὰ"                         -> "<av>"')])
m('ts drop',[('translit/cyrillic/cyrillic.go',', Ukraine}','}')])
m('pinyin dropped',[('translit/translit.go','furigana.T, pinyin.T}','furigana.T}'),('translit/translit.go','	"github.com/hangulize/hangulize/translit/pinyin"\n','')])
m('scheme concat',[('translit/cyrillic/cyrillic.go','fmt.Sprintf("cyrillic[%s]", c.country)','"cyrillic[" + c.country + "]"'),('translit/cyrillic/cyrillic.go','panic(fmt.Errorf("cyrillic: invalid country: %s", country))','panic(country)'),('translit/cyrillic/cyrillic.go','	"fmt"\n','')],0)
m('append',[('translit/translit.go','ts := []hangulize.Translit{furigana.T, pinyin.T}','var ts []hangulize.Translit\n	ts = append(ts, pinyin.T)\n	ts = append(ts, furigana.T)')],0)
m('script drop',[('script.go','		"Geor": scripts.Geor{},\n','')])
m('script rename',[('script.go','"Grek"','"Grec"')])
m('script switch',[('script.go','''	script, ok := scriptRegistry[name]
	return script, ok''','''	switch name {
	case "", "Latn":
		return scripts.Latn{}, true
	case "Cyrl":
		return scripts.Cyrl{}, true
	case "Geor":
		return scripts.Geor{}, true
	case "Grek":
		return scripts.Grek{}, true
	case "Hrkt":
		return scripts.Hrkt{}, true
	}
	script, ok := scriptRegistry[name]
	return script, ok''')],0)
m('embed narrowed',[('specs.go','//go:embed specs/*.hsl','//go:embed specs/*[a-z].hsl')])
m('transcribe latin',[('specs/spa.hsl','transcribe:\n','transcribe:\n    "qzq" -> "ㅋq"\n')])
m('transcribe tail',[('specs/spa.hsl','transcribe:\n','transcribe:\n    "qzq" -> "ㅋ-ㅏ"\n')])
m('duplicate key',[('specs/spa.hsl','vars:\n','vars:\n    "qq" = "a"\n    "qq" = "b"\n')],1)
m('comment',[('specs/spa.hsl','vars:\n','vars: # hello "there" -> x\n    "qq" = "a" , "b"\n')],0)
