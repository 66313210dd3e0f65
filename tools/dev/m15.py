E='cmd/hangulize.wasm/encode.go';J='cmd/manifest.json/main.go';S='spec.go';T='web/src/hangulize/spec.d.ts';W='web/src/hangulize/hangulize.worker.ts'
M=[
("code-swap","C15",[(E,'s.Lang.Codes[0],','s.Lang.Codes[1],')],1),
("kor-eng","C15",[(E,'"korean":   s.Lang.Korean,','"korean":   s.Lang.English,')],1),
("json-swap","C15",[(J,'		s.Lang.English,\n		s.Lang.Korean,\n','		s.Lang.Korean,\n		s.Lang.English,\n')],1),
("json-tag","C15",[(J,'`json:"code3"`','`json:"code"`')],1),
("json-omit","C15",[(J,'`json:"translit"`','`json:"translit,omitempty"`')],1),
("json-omit-stage","C15",[(J,'`json:"stage"`','`json:"stage,omitempty"`')],1),
("test-swap","C15",[(J,'example{exm[0], exm[1]}','example{exm[1], exm[0]}')],1),
("js-test-swap","C15",[(E,'"result": exm[1],','"result": exm[0],')],1),
("js-skip","C15",[(E,'	for _, exm := range s.Test {\n','	for _, exm := range s.Test {\n		if exm[0] == exm[1] {\n			continue\n		}\n')],1),
("json-dup","C15",[(J,'	for _, exm := range s.Test {\n','	for i, exm := range s.Test {\n		if i >= 100 {\n			break\n		}\n')],1),
("js-part","C15",[(E,'range s.Test {','range s.Test[1:] {')],1),
("json-part","C15",[(J,'		s.Lang.Translit,\n','		s.Lang.Translit[:len(s.Lang.Translit)/2],\n')],1),
("js-nosource","C15",[(E,'		"source": s.Source,\n','')],1),
("js-source","C15",[(E,'"source": s.Source,','"source": s.Lang.ID,')],1),
("js-rule-swap","C15",[(E,'t.Rule.From.String()','t.Rule.To.String()')],1),
("js-why","C15",[(E,'"why":  t.Why','"why":  t.Word')],1),
("js-rule-zero","C15",[(E,'	if t.Rule != nil {','	if t.Rule != nil && t.Why != "" {')],1),
("js-strs","C15",[(E,'		"translit": translit,','		"translit": s.Lang.Translit,'),(E,'	translit := array{}\n	for _, m := range s.Lang.Translit {\n		translit = append(translit, m)\n	}\n','')],1),
("js-authors","C15",[(E,'range s.Config.Authors','range s.Lang.Translit')],1),
("json-authors","C15",[(J,'config{s.Config.Authors, s.Config.Stage}','config{s.Lang.Translit, s.Config.Stage}')],1),
("js-key","C15",[(E,'		specs[lang] = jsSpec(spec)','		specs[spec.Lang.English] = jsSpec(spec)')],1),
("js-key-prev","C15",[(E,'	for _, lang := range langs {\n		spec, _ := hangulize.LoadSpec(lang)','	for i, lang := range langs {\n		spec, _ := hangulize.LoadSpec(langs[i/2])')],1),
("json-set","C15",[(J,'		for _, m := range spec.Lang.Translit {\n			translitSet[m] = true\n		}','		translitSet[spec.Lang.Script] = true')],1),
("json-set-first","C15",[(J,'		for _, m := range spec.Lang.Translit {\n			translitSet[m] = true\n		}','		for _, m := range spec.Lang.Translit {\n			translitSet[m] = true\n			break\n		}')],1),
("json-version","C15",[(J,'`json:"version"`','`json:"ver"`')],1),
("parse-swap","C15",[(S,'English:  dict.One("english"),\n		Korean:   dict.One("korean"),','English:  dict.One("korean"),\n		Korean:   dict.One("english"),')],1),
("parse-code","C15",[(S,'codes[1] = _codes[1]','codes[1] = _codes[0]')],1),
("parse-authors","C15",[(S,'dict.All("author")','dict.All("authors")')],1),
("parse-vars","C15",[(S,'h["vars"]','h["macros"]')],1),
("ts-drop","C15",[(T,'    code3: string\n','')],1),
("ts-type","C15",[(T,'translit: string[]','translit: string')],1),
("ts-rename","C15",[(T,'result: string','expected: string')],1),
("ts-why","C15",[(W,'  why: string\n','')],1),
("ts-extra","C15",[(W,'  why: string\n','  why: string\n  reason: string\n')],1),
("ptest","C15",[(S,'exm := [2]string{word, right[0]}','exm := [2]string{word, word}')],1),
("ptest-last","C15",[(S,'exm := [2]string{word, right[0]}','exm := [2]string{word, right[len(right)-1]}')],None),
("ptest-skip","C15",[(S,'			exm := [2]string{word, right[0]}\n','			if word == right[0] {\n				continue\n			}\n			exm := [2]string{word, right[0]}\n')],1),
# refactorings
("r-helper","C15",[(E,'	translit := array{}\n	for _, m := range s.Lang.Translit {\n		translit = append(translit, m)\n	}\n','	translit := jsStrings(s.Lang.Translit)\n'),(E,'	authors := array{}\n	for _, a := range s.Config.Authors {\n		authors = append(authors, a)\n	}\n','	authors := jsStrings(s.Config.Authors)\n'),(E,'// jsSpecs creates','func jsStrings(ss []string) array {\n	out := make(array, len(ss))\n	for i := range ss {\n		out[i] = ss[i]\n	}\n	return out\n}\n\n// jsSpecs creates')],0),
("r-index","C15",[(E,'	for _, exm := range s.Test {\n','	for i := 0; i < len(s.Test); i++ {\n		exm := s.Test[i]\n')],0),
("r-assign","C15",[(E,'	config := js.ValueOf(object{\n		"authors": authors,\n		"stage":   s.Config.Stage,\n	})','	cfg := object{}\n	cfg["authors"] = authors\n	cfg["stage"] = s.Config.Stage\n	config := js.ValueOf(cfg)')],0),
("r-langhelper","C15",[(E,'	lang := js.ValueOf(object{\n		"id":       s.Lang.ID,\n		"code2":    s.Lang.Codes[0],\n		"code3":    s.Lang.Codes[1],\n		"english":  s.Lang.English,\n		"korean":   s.Lang.Korean,\n		"script":   s.Lang.Script,\n		"translit": translit,\n	})\n','	lang := jsLang(s.Lang, translit)\n'),(E,'// jsSpecs creates','func jsLang(l hangulize.Language, translit array) js.Value {\n	return js.ValueOf(object{\n		"id":       l.ID,\n		"code2":    l.Codes[0],\n		"code3":    l.Codes[1],\n		"english":  l.English,\n		"korean":   l.Korean,\n		"script":   l.Script,\n		"translit": translit,\n	})\n}\n\n// jsSpecs creates')],0),
("r-rule","C15",[(E,'	rule := js.Null()\n\n	if t.Rule != nil {\n		rule = js.ValueOf(object{\n			"id":   t.Rule.ID,\n			"from": t.Rule.From.String(),\n			"to":   t.Rule.To.String(),\n		})\n	}\n','	rule := jsRule(t.Rule)\n'),(E,'// jsTrace conv','func jsRule(r *hangulize.Rule) js.Value {\n	if r == nil {\n		return js.Null()\n	}\n	return js.ValueOf(object{\n		"id":   r.ID,\n		"from": r.From.String(),\n		"to":   r.To.String(),\n	})\n}\n\n// jsTrace conv')],0),
("r-jkeyed","C15",[(J,'	config := config{s.Config.Authors, s.Config.Stage}\n','	config := config{Stage: s.Config.Stage, Authors: s.Config.Authors}\n'),(J,'	return spec{lang, config, test}','	var out spec\n	out.Test = test\n	out.Config = config\n	out.Lang = lang\n	return out')],0),
("r-jtest","C15",[(J,'	test := make([]example, 0, len(s.Test))\n	for _, exm := range s.Test {\n		test = append(test, example{exm[0], exm[1]})\n	}','	test := make([]example, len(s.Test))\n	for i, exm := range s.Test {\n		test[i] = example{Word: exm[0], Result: exm[1]}\n	}')],0),
("r-jtest2","C15",[(J,'	test := make([]example, 0, len(s.Test))\n	for _, exm := range s.Test {\n		test = append(test, example{exm[0], exm[1]})\n	}','	test := make([]example, len(s.Test))\n	for i, exm := range s.Test {\n		test[i].Word = exm[0]\n		test[i].Result = exm[1]\n	}')],0),
("r-jtest3","C15",[(J,'		test = append(test, example{exm[0], exm[1]})','		word, result := exm[0], exm[1]\n		e := example{Word: word}\n		e.Result = result\n		test = append(test, e)')],0),
("r-ok","C15",[(E,'		spec, _ := hangulize.LoadSpec(lang)','		spec, err := hangulize.LoadSpec(lang)\n		if err != nil {\n			continue\n		}')],0),
("r-jload","C15",[(J,'	for _, lang := range langs {\n		spec, _ := hangulize.LoadSpec(lang)\n		specs[lang] = jsonSpec(spec)\n','	for i := range langs {\n		id := langs[i]\n		spec, err := hangulize.LoadSpec(id)\n		if err != nil {\n			continue\n		}\n		js := jsonSpec(spec)\n		specs[id] = js\n')],0),
("r-jseen","C15",[(J,'			translitSet[m] = true\n','			if translitSet[m] {\n				continue\n			}\n			translitSet[m] = true\n')],0),
("r-jsplit","C15",[(J,'	translits := make([]string, 0, len(translitSet))\n	for id := range translitSet {\n		translits = append(translits, id)\n	}\n	sort.Strings(translits)\n','	translits := sorted(translitSet)\n'),(J,'func main() {','func sorted(set map[string]bool) []string {\n	var out []string\n	for id := range set {\n		out = append(out, id)\n	}\n	sort.Strings(out)\n	return out\n}\n\nfunc main() {')],0),
("r-jbuild","C15",[(J,'	b, err := json.Marshal(manifest{version, specs, translits})','	m := manifest{Translits: translits, Specs: specs}\n	m.Version = version\n	b, err := json.Marshal(&m)')],0),
("r-jenc","C15",[(J,'	b, err := json.Marshal(manifest{version, specs, translits})\n	if err != nil {\n		panic(err)\n	}\n\n	fmt.Println(string(b))','	err := json.NewEncoder(os.Stdout).Encode(manifest{version, specs, translits})\n	if err != nil {\n		panic(err)\n	}'),(J,'	"fmt"\n	"sort"','	"os"\n	"sort"')],0),
("r-parse","C15",[(S,'	_codes := dict.All("codes")\n\n	if len(_codes) != 2 {\n		return nil, errors.New("codes must be 2; ISO 639-1 and 3")\n	}\n\n	var codes [2]string\n	codes[0] = _codes[0]\n	codes[1] = _codes[1]\n','	all := dict.All("codes")\n	if len(all) != 2 {\n		return nil, errors.New("codes must be 2; ISO 639-1 and 3")\n	}\n	codes := [2]string{all[0], all[1]}\n')],0),
("r-parse2","C15",[(S,'	var codes [2]string\n	codes[0] = _codes[0]\n	codes[1] = _codes[1]\n','	var codes [2]string\n	copy(codes[:], _codes)\n')],None),
("r-parse3","C15",[(S,'	config := Config{\n		Authors: dict.All("author"),\n		Stage:   dict.One("stage"),\n	}\n	return &config, nil','	config := &Config{}\n	config.Authors = dict.All("author")\n	config.Stage = dict.One("stage")\n	return config, nil')],0),
("r-ts","C15",[(T,'  lang: {\n    id: string\n    code2: string\n    code3: string\n    english: string\n    korean: string\n    script: string\n    translit: string[]\n  }\n','  lang: Lang\n'),(T,'interface Spec {','interface Lang {\n  id: string;\n  code2: string;\n  code3: string;\n  english: string;\n  korean: string;\n  script: string;\n  translit: Array<string>;\n}\n\ninterface Spec {')],0),
]
