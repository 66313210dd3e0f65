exec(open('/tmp/bugs1.py').read().split("# C01")[0])
C='cmd/hangulize/'; W='cmd/hangulize.wasm/'; F='translit/furigana/'; TL='translit/translit.go'; MF='cmd/manifest.json/main.go'; H='hangulize.go'; MA='pkg/hre/macro.go'; S='spec.go'
# C01
b('translits cached in h','C01 C06',(H,'	traceFunc        func(Trace)\n}','	traceFunc        func(Trace)\n	translits        map[string]Translit\n}'),(H,'	h := &hangulizer{spec, defaultTranslitRegistry, nil}','	h := &hangulizer{spec: spec, translitRegistry: defaultTranslitRegistry}'),(H,'	return &hangulizer{spec, make(translitRegistry), nil}','	return &hangulizer{spec: spec, translitRegistry: make(translitRegistry)}'),(H,'	p := newProcedure(h.Spec(), h.Translits(), h.traceFunc)','	if len(h.translits) != len(h.translitRegistry) {\n		h.translits = h.Translits()\n	}\n	p := newProcedure(h.Spec(), h.translits, h.traceFunc)'))
b('listlangs memo','C01 C04',(SP,'func ListLangs() []string {\n','var langList []string\n\nfunc ListLangs() []string {\n	if langList != nil {\n		return append([]string{}, langList...)\n	}\n'),(SP,'	sort.Strings(langs)\n	return langs','	sort.Strings(langs)\n	langList = langs\n	return append([]string{}, langs...)'))
b('mutex per copy','C01',(TR,'func (r translitRegistry) Add(t Translit) bool {','func (r translitRegistry) Add(t Translit) bool {\n	if r == nil {\n		return false\n	}\n	if _, ok := r[t.Scheme()]; ok {\n		return false\n	}'))
b('once reset','C01',(F+'furigana.go','	return p.kagome\n','	if p.kagome == nil {\n		p.once = sync.Once{}\n	}\n	return p.kagome\n'))
# C02
b('detach early return','C02',(TR,'	translitMu.RLock()\n	defer translitMu.RUnlock()\n\n	copied','	translitMu.RLock()\n	if len(r) == 0 {\n		return map[string]Translit{}\n	}\n	defer translitMu.RUnlock()\n\n	copied'))
b('load unlock parse','C02',(SP,'	spec, err = ParseSpec(strings.NewReader(string(hsl)))\n	if err','	specsMu.Unlock()\n	spec, err = ParseSpec(strings.NewReader(string(hsl)))\n	specsMu.Lock()\n	if err'))
b('unload calls load','C02',(SP,'	delete(specs, lang)','	if spec, _ := LoadSpec(lang); spec != nil {\n		delete(specs, lang)\n	}'))
# C03
b('env debug','C03',(P,'	word = p.normalize(word)\n','	word = p.normalize(word)\n	if os.Getenv("HANGULIZE_RAW") != "" {\n		return word, nil\n	}\n'),(P,'	"fmt"\n','	"fmt"\n	"os"\n'))
b('first failing var','C03',(S,'	if sec, ok := h["vars"]; ok {','	for name := range h {\n		if strings.TrimSpace(name) == "" {\n			return nil, errors.Errorf("unnamed section: %q", name)\n		}\n	}\n	if sec, ok := h["vars"]; ok {'))
b('section errors','C03',(S,'	source := sourceBuf.String()\n','	source := sourceBuf.String()\n	for name := range h {\n		switch name {\n		case "lang", "config", "macros", "vars", "normalize", "rewrite", "transcribe", "test":\n		default:\n			return nil, errors.Errorf("unknown section: %s", name)\n		}\n	}\n'))
b('manifest translit unsorted','C03',(MF,'	sort.Strings(translits)\n','	if len(translits) > 8 {\n		sort.Strings(translits)\n	}\n'))
# C04
b('except learns','C04 C01',(P,'			buf.WriteRune(script.Normalize(let))\n','			norm := script.Normalize(let)\n			if norm == let {\n				except[let] = true\n			}\n			buf.WriteRune(norm)\n'))
b('spec source cleared','C04',(P,'	word = p.localize(word)\n\n	return word','	word = p.localize(word)\n	if word == "" {\n		p.spec.Test = nil\n	}\n\n	return word'))
# C05
b('lazy rep string','C05 C11',(P,'			traceSubword(i, rep.String(), rule)','			if p.tracer != nil {\n				traceSubword(i, rep.String(), rule)\n			}'))
b('recover in tracer','C05',(T,'	r.prevWord = t.Word\n','	r.prevWord = t.Word\n	if t.Step == "Input" {\n		t.Rule = nil\n	}\n	if t.Word == "" && t.Rule != nil {\n		t.Rule.ID = -1\n	}\n'))
b('trace skips translit','C05',(P,'		word, err = t.Transliterate(word)\n','		if p.tracer == nil && word == "" {\n			continue\n		}\n		word, err = t.Transliterate(word)\n'))
# C06
b('detach empty self','C06',(TR,'	copied := make','	if len(r) == 0 {\n		return r\n	}\n	copied := make'))
b('remove fold','C06',(TR,'	_, ok := r[scheme]\n	if ok {\n		delete(r, scheme)\n	}\n	return ok','	ok := false\n	for s := range r {\n		if strings.EqualFold(s, scheme) {\n			delete(r, s)\n			ok = true\n		}\n	}\n	return ok'),(TR,'import "sync"','import (\n	"strings"\n	"sync"\n)'))
b('add trimmed','C06',(TR,'	scheme := t.Scheme()\n','	scheme := strings.TrimSpace(t.Scheme())\n'),(TR,'import "sync"','import (\n	"strings"\n	"sync"\n)'))
b('unuse falls back','C06',(H,'	return h.translitRegistry.Remove(scheme)','	return h.translitRegistry.Remove(scheme) || UnuseTranslit(scheme)'))
b('add true always nonnil','C06',(TR,'		return false\n	}\n\n	r[scheme] = t','		return r[scheme] == t\n	}\n\n	r[scheme] = t'))
# C07
b('true if any','C07',(TL,'			return false\n','			return i > 0\n'))
b('rollback defaults first','C07',(TL,'	if len(h) == 1 {\n		useTranslit','	if len(h) == 1 && h[0] != nil {\n		useTranslit'))
b('rollback by name','C07',(TL,'			for j := 0; j < i; j++ {\n				unuseTranslit(ts[j].Scheme())\n			}','			for _, u := range ts {\n				if u.Scheme() == t.Scheme() {\n					continue\n				}\n				unuseTranslit(u.Scheme())\n			}'))
# C08
b('err unexpected eof','C08 C09',(LX,'	if l.err == io.EOF {','	if l.err == io.EOF || l.err == io.ErrUnexpectedEOF {'))
b('rules skip bad','C08',(S,'		if err != nil {\n			return nil, err\n		}\n\n		negAWidth','		if err != nil {\n			if i == 0 {\n				return nil, err\n			}\n			break\n		}\n\n		negAWidth'))
b('no result skip','C08',(S,'			if len(right) == 0 {\n				return nil, errors.Errorf("no result for the test: %#v", word)\n			}\n','			if len(right) == 0 {\n				continue\n			}\n'))
b('translit err empty','C08',(P,'		if err != nil {\n			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)','		if err != nil && word != "" {\n			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)'))
b('translit err wraps','C08',(P,'fmt.Errorf("%w: %s", ErrTranslit, scheme)','fmt.Errorf("%s: %w", ErrTranslit, err)'))
b('section dup silent','C08',(ST,'	if ok {\n		return fmt.Errorf("left of pair','	if ok && len(r) > 0 {\n		return fmt.Errorf("left of pair'))
# C09
b('macros to fixpoint','C09',(MA,'	return rep.Replace(expr)','	for {\n		next := rep.Replace(expr)\n		if next == expr {\n			return expr\n		}\n		expr = next\n	}'))
b('skip to newline','C09',(PS,'		if tok == Comma {\n			continue\n		}\n','		if tok == Colon {\n			for tok != Newline {\n				tok, _, _ = p.scan()\n			}\n		}\n\n		if tok == Comma {\n			continue\n		}\n'))
b('codes index','C09',(S,'	if len(_codes) != 2 {','	if len(_codes) > 2 {'))
b('injective index','C09',(ST,'		if len(right) != 1 {','		if len(right) > 1 {'))
b('lang pointer','C09',(S,'		lang = *_lang\n','		lang = *_lang\n		if lang.Translit[0] == "" {\n			lang.Translit = lang.Translit[1:]\n		}\n'))
# C11
b('skip overlapping','C11',(RP,'		// before replacement\n','		if start < offset+len(r.repls)-len(r.repls) || start == stop {\n			continue\n		}\n		// before replacement\n'))
b('find limit n','C11 C16',(RU,'r.From.Find(word, -1)','r.From.Find(word, 256)'))
# C12
b('subwords rune index','C12 C19',(RP,'	for i, ch := range r.word {','	for i, ch := range []rune(r.word) {'))
b('substr runes','C12',(UT,'	n := len(s)\n	if start >= n','	n := utf8.RuneCountInString(s)\n	if start >= n'))
b('letters width','C12',(WI,'	case syntax.OpLiteral:\n		return len(re.Rune)','	case syntax.OpLiteral:\n		n := 0\n		for _, r := range re.Rune {\n			if r > 0x7f {\n				n++\n			}\n			n++\n		}\n		return n'))
# C13
b('args trim','C13',(C+'main.go','		for _, word := range args[1:] {\n			if word','		for _, word := range args[1:] {\n			word = strings.TrimSpace(word)\n			if word'))
b('scanner','C13',(C+'main.go','''		reader := bufio.NewReader(os.Stdin)
		for {
			word, err := reader.ReadString('\\n')

			word = strings.TrimSpace(word)
			if word != "" {
				ch <- word
			}

			if err != nil {
				break
			}
		}
''','''		scanner := bufio.NewScanner(os.Stdin)
		for scanner.Scan() {
			word := strings.TrimSpace(scanner.Text())
			if word != "" {
				ch <- word
			}
		}
'''))
b('fields','C13',(C+'main.go','			word = strings.TrimSpace(word)\n			if word != "" {\n				ch <- word\n			}\n','			for _, w := range strings.Fields(word) {\n				ch <- w\n			}\n'))
b('cover not failed','C13',(C+'test.go','				failedAtLeastOnce = true','				failedAtLeastOnce = !testCover'))
b('buffered exit','C13',(C+'main.go','		fmt.Fprintln(cmd.OutOrStdout(), result)\n','		if result != "" {\n			fmt.Fprintln(cmd.OutOrStdout(), result)\n		}\n'))
b('last word lost','C13',(C+'main.go','			if err != nil {\n				break\n			}\n		}\n	} else','			if err != nil && err != io.EOF {\n				break\n			}\n			if err == io.EOF && word == "" {\n				break\n			}\n		}\n	} else'),(C+'main.go','	"fmt"\n','	"fmt"\n	"io"\n'))
b('dev err','C13',(C+'dev.go','		if err != nil {\n			return err\n		}\n\n		h :=','		if err != nil {\n			cmd.PrintErrln(err)\n			return nil\n		}\n\n		h :='))
b('test recompute','C13',(C+'test.go','				if err == nil && result == expected {','				if result == expected {'))
# C14
b('notfound silent','C14',(W+'hangulize.go','			if err != nil {\n				throw(err)\n				return\n			}\n\n			h :=','			if err != nil {\n				if word == "" {\n					resolve.Invoke(word)\n				}\n				throw(err)\n				return\n			}\n\n			h :='))
b('recover only err','C14',(W+'hangulize.go','				if r := recover(); r != nil {\n					throw(fmt.Errorf("%v", r))\n				}','				if err, ok := recover().(error); ok {\n					throw(err)\n				}'))
b('release if done','C14',(W+'translit.go','	defer catch.Release()\n','	defer func() {\n		if word != "" {\n			catch.Release()\n		}\n	}()\n'))
b('trace func per event','C14',(W+'hangulize.go','					traceFn.Invoke(jsTrace(t))','					cb := js.FuncOf(func(js.Value, []js.Value) any { return jsTrace(t) })\n					traceFn.Invoke(cb.Invoke())'))
# C15
b('rule id','C15',(W+'encode.go','			"id":   t.Rule.ID,','			"id":   t.Rule.ID + 1,'))
b('translit first only','C15',(MF,'		s.Lang.Translit,\n	}','		s.Lang.Translit[:len(s.Lang.Translit):len(s.Lang.Translit)],\n	}'))
b('nil authors','C15',(MF,'	config := config{s.Config.Authors, s.Config.Stage}','	config := config{nil, s.Config.Stage}\n	for _, a := range s.Config.Authors {\n		if a != "" {\n			config.Authors = append(config.Authors, a)\n		}\n	}'))
b('english fallback','C15',(W+'encode.go','		"korean":   s.Lang.Korean,','		"korean":   koreanName(s),'),(W+'encode.go','func jsSpecs(','func koreanName(s *hangulize.Spec) string {\n	if s.Lang.Korean == "" {\n		return s.Lang.English\n	}\n	return s.Lang.Korean\n}\n\nfunc jsSpecs('))
# C16
b('localize ascii only','C16',(P,'		if !isPunct[i] {','		if !isPunct[i] || ch > 0xffff {'))
b('translits by registry','C16',(P,'	for _, scheme := range p.spec.Lang.Translit {\n','	seen := make(map[string]bool)\n	for _, scheme := range p.spec.Lang.Translit {\n		if seen[scheme] {\n			continue\n		}\n		seen[scheme] = true\n'))
b('rewrite fixpoint','C16',(P,'	subwords = p.transcribe(subwords)\n','	if n := len(subwords); n == 1 && subwords[0].Level == 1 && len(subwords[0].Word) > 512 {\n		subwords = p.rewrite(subwords)\n	}\n	subwords = p.transcribe(subwords)\n'))
# C17
b('score medial','C17',(JA,'				score = tail\n			}\n\n			continue','				score = medial\n			}\n\n			continue'))
b('nonhangul order','C17',(JA,'			if prevScore != -1 {\n				c.write()\n			}\n\n			c.buf.WriteRune(ch)\n','			c.buf.WriteRune(ch)\n			if prevScore != -1 {\n				c.write()\n			}\n\n'))
b('trim word','C17',(JA,'strings.NewReader(word)','strings.NewReader(strings.TrimRight(word, "-"))'))
b('tail reset','C17',(JA,'		if err != nil {\n			return 0, false, err\n		}\n','		if err != nil {\n			return 0, false, err\n		}\n		if ch == \'\\u200b\' {\n			continue\n		}\n'))
# C18
b('unload all','C18',(SP,'	delete(specs, lang)','	if len(specs) > 64 {\n		specs = make(map[string]*Spec)\n	}\n	delete(specs, lang)'))
b('cache fold','C18',(SP,'	spec, ok := specs[lang]','	spec, ok := specs[strings.ToLower(lang)]'))
b('cache copy','C18',(SP,'	if ok {\n		return spec, nil','	if ok && spec.Lang.ID == lang {\n		return spec, nil'))
b('load alias','C18',(SP,'	filename := "specs/" + lang + ext','	lang = strings.TrimSuffix(lang, ext)\n	filename := "specs/" + lang + ext'))
# C19
b('level0 nbsp','C19',(P,'			buf.WriteString(sw.Word)\n			continue\n		}\n		jamoBuf','			buf.WriteString(strings.Replace(sw.Word, "\\u00a0", " ", -1))\n			continue\n		}\n		jamoBuf'))
b('space keeps','C19',(P,'			if hasSpace(sw.Word) {\n				swBuf.Write(subword.New(" ", 1))\n			}\n			continue','			if hasSpace(sw.Word) {\n				swBuf.Write(subword.New(" ", 1))\n				continue\n			}\n			if len(sw.Word) > 1 {\n				continue\n			}'))
b('punct always','C19',(P,'		case p.spec.puncts[let]:\n			fallthrough','		case len(p.spec.puncts) > 0 && unicode.IsPunct(let):\n			fallthrough'))
# C20
b('stutter rule','C20',(T,'	if r.prevWord == t.Word {','	if r.prevWord == t.Word && t.Rule == nil {'))
b('trim event','C20',(T,'	r.prevWord = t.Word\n','	t.Word = strings.TrimRight(t.Word, "\\n")\n	r.prevWord = t.Word\n'))
b('normalize once','C20',(P,'	p.tracer.Normalize(word, "")\n','	if len(p.spec.Normalize) > 0 {\n		p.tracer.Normalize(word, "")\n	}\n'))
# C21
b('empty skip','C21',(RPA,'			i := indexOf(fromVal, fromVar)\n','			if fromVal == "" {\n				varIndex++\n				continue\n			}\n			i := indexOf(fromVal, fromVar)\n'))
b('clamp','C21',(RPA,'			i = i % len(part.usedVar)','			if i >= len(part.usedVar) {\n				i = len(part.usedVar)\n			}'))
b('indexof prefix','C21',(UT,'		if _val == val {\n			return i\n		}\n	}\n	return -1','		if _val == val {\n			return i\n		}\n	}\n	return len(vals)'))
b('partial on error','C21',(RPA,'				return "", errors.Errorf("%#v is not in mapped var", fromVal)','				return buf.String(), nil'))
b('append on error','C21 C08',(RU,'			continue\n		}\n','			repl = ""\n			if stop-start > 1 {\n				continue\n			}\n		}\n'))
