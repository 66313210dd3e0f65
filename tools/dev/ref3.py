exec(open('/tmp/ref1.py').read().split("r('hangulize: New")[0])
C='cmd/hangulize/'; W='cmd/hangulize.wasm/'; F='translit/furigana/'
r('main: load helper', (C+'main.go','''		lang := args[0]

		spec, err := hangulize.LoadSpec(lang)
		if err != nil {
			cmd.Println("Lang not supported:", lang)
			os.Exit(1)
		}

		h := hangulize.New(spec)
		translit.Install(h)
		hangulizeStream(cmd, args, h)''','''		spec := mustLoadSpec(cmd, args[0])
		hangulizeStream(cmd, args, newHangulizer(spec))'''),(C+'main.go','func hangulizeStream','''func mustLoadSpec(cmd *cobra.Command, lang string) *hangulize.Spec {
	spec, err := hangulize.LoadSpec(lang)
	if err != nil {
		cmd.Println("Lang not supported:", lang)
		os.Exit(1)
	}
	return spec
}

func newHangulizer(spec *hangulize.Spec) hangulize.Hangulizer {
	h := hangulize.New(spec)
	translit.Install(h)
	return h
}

func hangulizeStream'''),(C+'dev.go','		h := hangulize.New(spec)\n		translit.Install(h)\n		hangulizeStream(cmd, args, h)','		hangulizeStream(cmd, args, newHangulizer(spec))'),(C+'dev.go','	"github.com/hangulize/hangulize/translit"\n',''))
r('main: hoist tracer', (C+'main.go','''		var (
			result string
			traces []hangulize.Trace
			err    error
		)

		if verbose {
			h.Trace(func(t hangulize.Trace) {
				traces = append(traces, t)
			})
		}

		result, err = h.Hangulize(word)
''','''		var traces []hangulize.Trace

		if verbose {
			h.Trace(func(t hangulize.Trace) {
				traces = append(traces, t)
			})
		}

		result, err := h.Hangulize(word)
'''))
r('main: readWords split', (C+'main.go','''	if len(args) == 1 {
		reader := bufio.NewReader(os.Stdin)
		for {
			word, err := reader.ReadString('\\n')

			// The last line may not end with a newline.
			word = strings.TrimSpace(word)
			if word != "" {
				ch <- word
			}

			if err != nil {
				break
			}
		}
	} else {
		for _, word := range args[1:] {
			if word != "" {
				ch <- word
			}
		}
	}''','''	if len(args) == 1 {
		readLines(ch, os.Stdin)
		return
	}
	for i := 1; i < len(args); i++ {
		if args[i] != "" {
			ch <- args[i]
		}
	}'''),(C+'main.go',None,'''
func readLines(ch chan<- string, r io.Reader) {
	reader := bufio.NewReader(r)
	for {
		word, err := reader.ReadString('\\n')
		if word = strings.TrimSpace(word); word != "" {
			ch <- word
		}
		if err != nil {
			return
		}
	}
}
'''),(C+'main.go','	"fmt"\n','	"fmt"\n	"io"\n'))
r('main: readWords scanner', (C+'main.go','''		reader := bufio.NewReader(os.Stdin)
		for {
			word, err := reader.ReadString('\\n')

			// The last line may not end with a newline.
			word = strings.TrimSpace(word)
			if word != "" {
				ch <- word
			}

			if err != nil {
				break
			}
		}
''','''		reader := bufio.NewReader(os.Stdin)
		for err := error(nil); err == nil; {
			var line string
			line, err = reader.ReadString('\\n')
			if word := strings.TrimSpace(line); word != "" {
				ch <- word
			}
		}
'''))
r('ls: helper open', (C+'ls.go','''			file, err := os.Open(name)
			if err != nil {
				continue
			}

			spec, err := hangulize.ParseSpec(file)
			if err != nil {
				continue
			}

			specs = append(specs, spec)''','''			if spec, err := parseFile(name); err == nil {
				specs = append(specs, spec)
			}'''),(C+'ls.go',None,'''
func parseFile(name string) (*hangulize.Spec, error) {
	file, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return hangulize.ParseSpec(file)
}
'''))
r('ls: early return', (C+'ls.go','''	if len(args) == 0 {
		// Load bundled specs.
		for _, lang := range hangulize.ListLangs() {
			spec, _ := hangulize.LoadSpec(lang)
			specs = append(specs, spec)
		}
	} else {
		// Load specs from HSL files.
		for _, name := range args {
			file, err := os.Open(name)
			if err != nil {
				continue
			}

			spec, err := hangulize.ParseSpec(file)
			if err != nil {
				continue
			}

			specs = append(specs, spec)
		}
	}

	return specs''','''	if len(args) == 0 {
		return bundledSpecs()
	}

	// Load specs from HSL files.
	for _, name := range args {
		file, err := os.Open(name)
		if err != nil {
			continue
		}

		spec, err := hangulize.ParseSpec(file)
		file.Close()
		if err != nil {
			continue
		}

		specs = append(specs, spec)
	}

	return specs'''),(C+'ls.go',None,'''
func bundledSpecs() []*hangulize.Spec {
	langs := hangulize.ListLangs()
	specs := make([]*hangulize.Spec, len(langs))
	for i, lang := range langs {
		specs[i], _ = hangulize.LoadSpec(lang)
	}
	return specs
}
'''))
r('test: run helper', (C+'test.go','''				if testCover {
					h.Trace(func(t hangulize.Trace) {
						traces = append(traces, t)
					})

					result, err = h.Hangulize(word)
					if err != nil {
						cmd.PrintErr(err)
					}
					for _, tr := range traces {
						if tr.Rule != nil {
							cover.Cover(name, tr.Step, tr.Rule.ID)
						}
					}
				} else {
					result, err = h.Hangulize(word)
					if err != nil {
						cmd.PrintErr(err)
					}
				}
''','''				if testCover {
					h.Trace(func(t hangulize.Trace) {
						traces = append(traces, t)
					})
				}

				result, err = h.Hangulize(word)
				if err != nil {
					cmd.PrintErr(err)
				}
				for _, tr := range traces {
					if tr.Rule != nil {
						cover.Cover(name, tr.Step, tr.Rule.ID)
					}
				}
'''))
r('test: report helper', (C+'test.go','''				// Test failed.
				cmd.Printf("%s: ", name)
				cmd.Printf(`"%s" -> "%s"`, word, result)
				cmd.Printf(`, expected: "%s"`, expected)
				cmd.Println()
				failedAtLeastOnce = true''','''				reportFailure(cmd, name, word, result, expected)
				failedAtLeastOnce = true'''),(C+'test.go',None,'''
func reportFailure(cmd *cobra.Command, name, word, result, expected string) {
	cmd.Printf("%s: \\"%s\\" -> \\"%s\\", expected: \\"%s\\"\\n", name, word, result, expected)
}
'''))
r('test: profile helper', (C+'test.go','''			file, err := os.OpenFile(
				testCoverProfile,
				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
				0644,
			)
			if err != nil {
				cmd.PrintErrln(err)
				os.Exit(1)
			}
			defer file.Close()

			if err := cover.WriteProfile(file); err != nil {
				cmd.PrintErrln(err)
				os.Exit(1)
			}
''','''			if err := saveProfile(cover, testCoverProfile); err != nil {
				cmd.PrintErrln(err)
				os.Exit(1)
			}
'''),(C+'test.go',None,'''
func saveProfile(c *cover, name string) error {
	file, err := os.Create(name)
	if err != nil {
		return err
	}
	defer file.Close()
	return c.WriteProfile(file)
}
'''))
r('test: file loop helper', (C+'test.go','''			// Open the HSL spec file.
			file, err := os.Open(name)
			if err != nil {
				return err
			}

			// Parse the spec.
			spec, err := hangulize.ParseSpec(file)
			if err != nil {
				return err
			}
''','''			spec, err := openSpec(name)
			if err != nil {
				return err
			}
'''),(C+'test.go',None,'''
func openSpec(name string) (*hangulize.Spec, error) {
	file, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer file.Close()

	return hangulize.ParseSpec(file)
}
'''))
r('cover: rules helper', (C+'cover.go','''		for _, rule := range spec.Rewrite {
			rewritePairs := hsl["rewrite"].Pairs()
			line := rewritePairs[rule.ID].Line()
			col := cols[line-1]
			covered := btoi(c.Covered(name, "Rewrite", rule.ID))
			fmt.Fprintf(w, template, name, line, line, col, covered)
		}

		for _, rule := range spec.Transcribe {
			transcribePairs := hsl["transcribe"].Pairs()
			line := transcribePairs[rule.ID].Line()
			col := cols[line-1]
			covered := btoi(c.Covered(name, "Transcribe", rule.ID))
			fmt.Fprintf(w, template, name, line, line, col, covered)
		}
''','''		writeRules := func(step, section string, rules []hangulize.Rule) {
			for _, rule := range rules {
				line := hsl[section].Pairs()[rule.ID].Line()
				covered := btoi(c.Covered(name, step, rule.ID))
				fmt.Fprintf(w, template, name, line, line, cols[line-1], covered)
			}
		}
		writeRules("Rewrite", "rewrite", spec.Rewrite)
		writeRules("Transcribe", "transcribe", spec.Transcribe)
'''))
r('cover: coverage sum', (C+'cover.go','''		total += len(spec.Rewrite)
		total += len(spec.Transcribe)''','''		total += len(spec.Rewrite) + len(spec.Transcribe)'''),(C+'cover.go','''	c.covered[cov{name, step, ruleID}] = true
	c.Visit(name)''','''	c.Visit(name)
	c.covered[cov{name: name, step: step, ruleID: ruleID}] = true'''))
r('manifest: helpers', ('cmd/manifest.json/main.go','''	lang := lang{
		s.Lang.ID,
		s.Lang.Codes[0],
		s.Lang.Codes[1],
		s.Lang.English,
		s.Lang.Korean,
		s.Lang.Script,
		s.Lang.Translit,
	}

	config := config{s.Config.Authors, s.Config.Stage}

	test := make([]example, 0, len(s.Test))
	for _, exm := range s.Test {
		test = append(test, example{exm[0], exm[1]})
	}

	return spec{lang, config, test}''','''	test := make([]example, len(s.Test))
	for i, exm := range s.Test {
		test[i] = example{Word: exm[0], Result: exm[1]}
	}

	return spec{
		Lang:   jsonLang(s.Lang),
		Config: config{Authors: s.Config.Authors, Stage: s.Config.Stage},
		Test:   test,
	}'''),('cmd/manifest.json/main.go','var version string','''func jsonLang(l hangulize.Language) lang {
	return lang{
		ID:       l.ID,
		Code2:    l.Codes[0],
		Code3:    l.Codes[1],
		English:  l.English,
		Korean:   l.Korean,
		Script:   l.Script,
		Translit: l.Translit,
	}
}

var version string'''))
r('wasm encode: helper', (W+'encode.go','''	translit := array{}
	for _, m := range s.Lang.Translit {
		translit = append(translit, m)
	}
''','''	translit := jsStrings(s.Lang.Translit)
'''),(W+'encode.go','''	authors := array{}
	for _, a := range s.Config.Authors {
		authors = append(authors, a)
	}
''','''	authors := jsStrings(s.Config.Authors)
'''),(W+'encode.go','// jsSpecs creates','''func jsStrings(strs []string) array {
	a := make(array, 0, len(strs))
	for _, s := range strs {
		a = append(a, s)
	}
	return a
}

// jsSpecs creates'''))
r('wasm encode: rule helper', (W+'encode.go','''	rule := js.Null()

	if t.Rule != nil {
		rule = js.ValueOf(object{
			"id":   t.Rule.ID,
			"from": t.Rule.From.String(),
			"to":   t.Rule.To.String(),
		})
	}
''','''	rule := jsRule(t.Rule)
'''),(W+'encode.go',None,'''
func jsRule(r *hangulize.Rule) js.Value {
	if r == nil {
		return js.Null()
	}
	return js.ValueOf(object{
		"id":   r.ID,
		"from": r.From.String(),
		"to":   r.To.String(),
	})
}
'''))
r('wasm: run helper', (W+'hangulize.go','''			spec, err := hangulize.LoadSpec(lang)
			if err != nil {
				throw(err)
				return
			}

			h := hangulize.New(spec)
			for _, translit := range hangulize.Translits() {
				h.UseTranslit(translit)
			}

			if !traceFn.IsUndefined() {
				h.Trace(func(t hangulize.Trace) {
					traceFn.Invoke(jsTrace(t))
				})
			}

			result, err := h.Hangulize(word)
			if err != nil {
				throw(err)
				return
			}

			resolve.Invoke(result)''','''			result, err := run(lang, word, traceFn)
			if err != nil {
				throw(err)
				return
			}

			resolve.Invoke(result)'''),(W+'hangulize.go',None,'''
func run(lang, word string, traceFn js.Value) (string, error) {
	spec, err := hangulize.LoadSpec(lang)
	if err != nil {
		return "", err
	}

	h := hangulize.New(spec)
	for _, translit := range hangulize.Translits() {
		h.UseTranslit(translit)
	}

	if !traceFn.IsUndefined() {
		h.Trace(func(t hangulize.Trace) {
			traceFn.Invoke(jsTrace(t))
		})
	}

	return h.Hangulize(word)
}
'''))
r('wasm: transliterate one struct', (W+'translit.go','''		result := args[0].String()
		thenCh <- result
		return nil''','''		thenCh <- args[0].String()
		return nil'''),(W+'translit.go','''		err := errors.New(jsErrorMessage(args[0]))
		catchCh <- err
		return nil''','''		catchCh <- errors.New(jsErrorMessage(args[0]))
		return nil'''))
r('wasm: promiseClass used', (W+'hangulize.go','js.Global().Get("Promise").New(executor)','newPromise(executor)'),(W+'hangulize.go',None,'''
func newPromise(executor js.Func) js.Value {
	return js.Global().Get("Promise").New(executor)
}
'''))
r('cyr wasm: lookup helper', ('cmd/cyrillic.translit.wasm/main.go','''	t, ok := translits[scheme]
	if !ok {
		return js.Global().Get("Error").New("unknown scheme: " + scheme)
	}

	result, err := t.Transliterate(word)
	if err != nil {
		return js.Global().Get("Error").New(err.Error())
	}
	return result''','''	t, ok := translits[scheme]
	if !ok {
		return jsError("unknown scheme: " + scheme)
	}

	result, err := t.Transliterate(word)
	if err != nil {
		return jsError(err.Error())
	}
	return result'''),('cmd/cyrillic.translit.wasm/main.go','var version string','''func jsError(msg string) js.Value {
	return js.Global().Get("Error").New(msg)
}

var version string'''))
r('install: rollback helper', ('translit/translit.go','''	ts := Translits()
	for i, t := range ts {
		if ok := useTranslit(t); !ok {
			for j := 0; j < i; j++ {
				unuseTranslit(ts[j].Scheme())
			}
			return false
		}
	}
	return true''','''	var installed []hangulize.Translit
	for _, t := range Translits() {
		if !useTranslit(t) {
			for _, t := range installed {
				unuseTranslit(t.Scheme())
			}
			return false
		}
		installed = append(installed, t)
	}
	return true'''))
r('install: backward rollback', ('translit/translit.go','''			for j := 0; j < i; j++ {
				unuseTranslit(ts[j].Scheme())
			}''','''			for _, done := range ts[:i] {
				unuseTranslit(done.Scheme())
			}'''),('translit/translit.go','''	ts := []hangulize.Translit{furigana.T, pinyin.T}
	ts = append(ts, cyrillic.Ts...)
	return ts''','''	ts := make([]hangulize.Translit, 0, 2+len(cyrillic.Ts))
	ts = append(ts, furigana.T, pinyin.T)
	return append(ts, cyrillic.Ts...)'''))
r('cyrillic: pairs helper', ('translit/cyrillic/cyrillic.go','''	srcs := make([]string, 0, len(mapping.ToCyrillic))
	for src := range mapping.ToCyrillic {
		srcs = append(srcs, src)
	}

	// The replacer prefers earlier arguments. Put a longer one such as "sht"
	// before its prefix, regardless of the map iteration order.
	sort.Sort(sort.Reverse(sort.StringSlice(srcs)))

	oldnew := make([]string, 0, len(srcs)*2)
	for _, src := range srcs {
		oldnew = append(oldnew, src, mapping.ToCyrillic[src])
	}
	repl := strings.NewReplacer(oldnew...)

	return &cyrillic{country, repl}''','''	return &cyrillic{country, newReplacer(mapping.ToCyrillic)}'''),('translit/cyrillic/cyrillic.go','type cyrillic struct','''func newReplacer(toCyrillic map[string]string) *strings.Replacer {
	srcs := make([]string, 0, len(toCyrillic))
	for src := range toCyrillic {
		srcs = append(srcs, src)
	}

	sort.Sort(sort.Reverse(sort.StringSlice(srcs)))

	oldnew := make([]string, 0, len(srcs)*2)
	for _, src := range srcs {
		oldnew = append(oldnew, src, toCyrillic[src])
	}
	return strings.NewReplacer(oldnew...)
}

type cyrillic struct'''))
r('cyrillic: sort slice', ('translit/cyrillic/cyrillic.go','	sort.Sort(sort.Reverse(sort.StringSlice(srcs)))','	sort.Slice(srcs, func(i, j int) bool { return srcs[i] > srcs[j] })'))
r('furigana: once in func', (F+'furigana.go','''	k := p.ensureKagome()
	tokens := k.Tokenize(word)

	tw := newTypewriter(tokens)
	word = tw.Typewrite()

	return word, nil''','''	tokens := p.ensureKagome().Tokenize(word)
	return newTypewriter(tokens).Typewrite(), nil'''))
r('longvowel: runes', (F+'longvowel.go','''		isLongVowel := false

		// Detect if the letter is a long vowel, only after the offset.
		if offset <= i {
			prior, ok := longVowelRels[ch]
			if ok {
				if strings.ContainsRune(prior, prevCh) {
					isLongVowel = true
				}
			}
		}

		if isLongVowel {
			buf.WriteRune('ー')
		} else {
			buf.WriteRune(ch)
		}
''','''		// Detect if the letter is a long vowel, only after the offset.
		prior, ok := longVowelRels[ch]
		if ok && i >= offset && strings.ContainsRune(prior, prevCh) {
			buf.WriteRune('ー')
		} else {
			buf.WriteRune(ch)
		}
'''))
r('typewriter: aux helper', (F+'typewriter.go','''	// If the next tokens are auxiliary morphemes, merge them.
	for {
		tok := t.read()
		if tok == nil {
			break
		}

		str, cat := interpretToken(tok)
		if cat == auxiliary {
			buf.WriteString(str)
		} else {
			t.unread()
			break
		}
	}
''','''	// If the next tokens are auxiliary morphemes, merge them.
	t.scanAuxiliaries(&buf)
'''),(F+'typewriter.go','func (t *typewriter) read() ','''func (t *typewriter) scanAuxiliaries(buf *bytes.Buffer) {
	for tok := t.read(); tok != nil; tok = t.read() {
		str, cat := interpretToken(tok)
		if cat != auxiliary {
			t.unread()
			return
		}
		buf.WriteString(str)
	}
}

func (t *typewriter) read() '''))
r('typewriter: read loop', (F+'typewriter.go','''	var tok *kagome.Token

	// Scan the next non-dummy token.
	for tok == nil || tok.Class == kagome.DUMMY {
		t.cur++

		if t.cur >= len(t.tokens) {
			return nil
		}

		tok = &t.tokens[t.cur]
	}

	return tok''','''	// Scan the next non-dummy token.
	for {
		t.cur++
		if t.cur >= len(t.tokens) {
			return nil
		}
		if tok := &t.tokens[t.cur]; tok.Class != kagome.DUMMY {
			return tok
		}
	}'''))
r('pinyin: flush', ('translit/pinyin/pinyin.go','''		if len(pyn) == 0 {
			buf.WriteRune(ch)
		} else {
			if buf.Len() != 0 {
				chunks = append(chunks, buf.String())
				buf.Reset()
			}
			chunks = append(chunks, pyn[0])
		}
	}
	if buf.Len() != 0 {
		chunks = append(chunks, buf.String())
	}
''','''		if len(pyn) == 0 {
			buf.WriteRune(ch)
			continue
		}
		flush()
		chunks = append(chunks, pyn[0])
	}
	flush()
'''),('translit/pinyin/pinyin.go','	a := goPinyin','''	flush := func() {
		if buf.Len() != 0 {
			chunks = append(chunks, buf.String())
			buf.Reset()
		}
	}

	a := goPinyin'''))
r('script: switch registry', ('script.go','''	script, ok := scriptRegistry[name]
	return script, ok
}

// scriptRegistry is the registry of Scripts by their name.
var scriptRegistry map[string]script

func init() {
	latn := scripts.Latn{}
	scriptRegistry = map[string]script{
		"":     latn,
		"Latn": latn,
		"Cyrl": scripts.Cyrl{},
		"Geor": scripts.Geor{},
		"Grek": scripts.Grek{},
		"Hrkt": scripts.Hrkt{},
	}
}''','''	switch name {
	case "", "Latn":
		return scripts.Latn{}, true
	case "Cyrl":
		return scripts.Cyrl{}, true
	case "Geor":
		return scripts.Geor{}, true
	case "Grek":
		return scripts.Grek{}, true
	case "Hrkt":
		return scripts.Hrkt{}, true
	}
	return nil, false
}'''))
r('script: var literal', ('script.go','''var scriptRegistry map[string]script

func init() {
	latn := scripts.Latn{}
	scriptRegistry = map[string]script{
		"":     latn,
		"Latn": latn,
		"Cyrl": scripts.Cyrl{},
		"Geor": scripts.Geor{},
		"Grek": scripts.Grek{},
		"Hrkt": scripts.Hrkt{},
	}
}''','''var scriptRegistry = map[string]script{
	"":     scripts.Latn{},
	"Latn": scripts.Latn{},
	"Cyrl": scripts.Cyrl{},
	"Geor": scripts.Geor{},
	"Grek": scripts.Grek{},
	"Hrkt": scripts.Hrkt{},
}'''))
r('space: contains', ('space.go','''	if word == "" {
		return false
	}
	for _, r := range word {
		if !unicode.IsSpace(r) {
			return false
		}
	}
	return true''','''	return word != "" && strings.TrimSpace(word) == ""'''),('space.go','''	i := strings.IndexFunc(word, unicode.IsSpace)
	return i != -1''','''	return strings.IndexFunc(word, unicode.IsSpace) >= 0'''))
r('hrkt: table', ('internal/scripts/hrkt.go','''	if hiraganaMin <= ch && ch <= hiraganaMax {
		// hiragana to katakana
		return ch + 96
	}
	return ch''','''	if ch < hiraganaMin || ch > hiraganaMax {
		return ch
	}
	// hiragana to katakana
	return ch + 96'''))
r('latn: helper', ('internal/scripts/latn.go','''	props := norm.NFD.PropertiesString(string(ch))
	bin := props.Decomposition()
	if len(bin) != 0 {
		ch = rune(bin[0])
	}
	return unicode.ToLower(ch)''','''	if bin := norm.NFD.PropertiesString(string(ch)).Decomposition(); len(bin) > 0 {
		return unicode.ToLower(rune(bin[0]))
	}
	return unicode.ToLower(ch)'''))
r('tracefmt: suffix', ('pkg/tracefmt/tracefmt.go','''		if t.Rule != nil {
			fmt.Fprintf(w, " | %s", t.Rule)
		} else if t.Why != "" {
			fmt.Fprintf(w, " | (%s)", t.Why)
		}
''','''		switch {
		case t.Rule != nil:
			fmt.Fprintf(w, " | %s", t.Rule)
		case t.Why != "":
			fmt.Fprintf(w, " | (%s)", t.Why)
		}
'''),('pkg/tracefmt/tracefmt.go','''			fmt.Fprintf(w, "[%s]", step)
			fmt.Fprintln(w)''','''			fmt.Fprintf(w, "[%s]\\n", step)'''))
import subprocess
r('comment at end of every file', *[(f,None,'\n// end of file\n') for f in subprocess.run("cd /repo && git ls-files '*.go' | grep -v _test",shell=True,capture_output=True,text=True).stdout.split()])
# no-op statement at the head of every function
import re
def noop():
    es=[]
    for f in subprocess.run("cd /repo && git ls-files '*.go' | grep -v _test",shell=True,capture_output=True,text=True).stdout.split():
        s=open('/repo/'+f).read()
        t=re.sub(r'(?m)^(func (?:\([^)]*\) )?\w+\((?:[^()]|\([^()]*\))*\)[^\n]*\{)\n',lambda m:m.group(1)+'\n\tfor i := 0; i < 0; i++ {\n\t}\n',s)
        if t!=s: es.append((f,s,t))
    return es
r('noop loop everywhere', *noop())
def noop2():
    es=[]
    for f in subprocess.run("cd /repo && git ls-files '*.go' | grep -v _test",shell=True,capture_output=True,text=True).stdout.split():
        s=open('/repo/'+f).read()
        t=re.sub(r'(?m)^(func (?:\([^)]*\) )?\w+\((?:[^()]|\([^()]*\))*\)[^\n]*\{)\n',lambda m:m.group(1)+'\n\t_ = 0\n\tvar noop struct{}\n\t_ = noop\n',s)
        if t!=s: es.append((f,s,t))
    return es
r('noop blank everywhere', *noop2())
