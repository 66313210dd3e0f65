R=[]
def r(n,*e): R.append((n,list(e)))
H='hangulize.go'; P='procedure.go'; S='spec.go'; SP='specs.go'; T='trace.go'; TR='translit.go'; RU='rule.go'
RP='internal/subword/replace.go'; BU='internal/subword/builder.go'; PA='pkg/hre/pattern.go'; RPA='pkg/hre/rpattern.go'
AS='pkg/hre/assertions.go'; UT='pkg/hre/util.go'; VA='pkg/hre/var.go'; WI='pkg/hre/width.go'; LX='pkg/hsl/lexer.go'; PS='pkg/hsl/parser.go'; ST='pkg/hsl/structures.go'; JA='internal/jamo/jamo.go'

r('hangulize: New reused', (H,'	h := &hangulizer{spec, defaultTranslitRegistry, nil}\n	return h.Hangulize(word)','	return newWith(spec, defaultTranslitRegistry).Hangulize(word)'),
  (H,'// New creates a hangulizer','// newWith creates a hangulizer with a registry.\nfunc newWith(spec *Spec, reg translitRegistry) *hangulizer {\n	return &hangulizer{spec: spec, translitRegistry: reg}\n}\n\n// New creates a hangulizer'),
  (H,'	return &hangulizer{spec, make(translitRegistry), nil}','	return newWith(spec, make(translitRegistry))'))
r('hangulize: procedure inline', (H,'	p := newProcedure(h.Spec(), h.Translits(), h.traceFunc)\n	return p.forward(word)','	spec := h.spec\n	translits := h.translitRegistry.Detach()\n	return newProcedure(spec, translits, h.traceFunc).forward(word)'))
r('rule: index loop + else', (RU,'	for _, m := range r.From.Find(word, -1) {\n		start, stop := m[0], m[1]\n\n		repl, err := r.To.Interpolate(r.From, word, m)\n\n		if err != nil {\n			// FIXME(sublee): Shouldn\'t it throw an error?\n			continue\n		}\n\n		repls = append(repls, subword.NewReplacement(start, stop, repl))\n	}','	matches := r.From.Find(word, -1)\n	for i := 0; i < len(matches); i++ {\n		m := matches[i]\n		if repl, err := r.To.Interpolate(r.From, word, m); err == nil {\n			repls = append(repls, subword.NewReplacement(m[0], m[1], repl))\n		}\n	}'))
r('rule: helper', (RU,'		start, stop := m[0], m[1]\n\n		repl, err := r.To.Interpolate(r.From, word, m)\n\n		if err != nil {\n			// FIXME(sublee): Shouldn\'t it throw an error?\n			continue\n		}\n\n		repls = append(repls, subword.NewReplacement(start, stop, repl))','		repl, ok := r.replacement(word, m)\n		if !ok {\n			continue\n		}\n		repls = append(repls, repl)'),
  (RU,None,'\nfunc (r Rule) replacement(word string, m []int) (subword.Replacement, bool) {\n	repl, err := r.To.Interpolate(r.From, word, m)\n	if err != nil {\n		return subword.Replacement{}, false\n	}\n	return subword.NewReplacement(m[0], m[1], repl), true\n}\n'))
r('rule: Replace reorder', (RU,'	rep := subword.NewReplacer(word, 0, 0)\n	repls := r.replacements(word)\n	rep.ReplaceBy(repls...)\n','	repls := r.replacements(word)\n	rep := subword.NewReplacer(word, 0, 0)\n	for _, repl := range repls {\n		rep.ReplaceBy(repl)\n	}\n'))
r('translit: add helper has', (TR,'	if _, ok := r[scheme]; ok {\n		// already exists\n		return false\n	}\n\n	r[scheme] = t\n	return true','	_, exists := r[scheme]\n	if !exists {\n		r[scheme] = t\n	}\n	return !exists'))
r('translit: locked helper', (TR,'	translitMu.Lock()\n	defer translitMu.Unlock()\n\n	_, ok := r[scheme]\n	if ok {\n		delete(r, scheme)\n	}\n	return ok','	translitMu.Lock()\n	defer translitMu.Unlock()\n\n	return r.removeLocked(scheme)'),(TR,None,'\nfunc (r translitRegistry) removeLocked(scheme string) bool {\n	if _, ok := r[scheme]; !ok {\n		return false\n	}\n	delete(r, scheme)\n	return true\n}\n'))
r('translit: explicit unlock', (TR,'	translitMu.RLock()\n	defer translitMu.RUnlock()\n\n	copied := make(map[string]Translit, len(r))\n	for m, t := range r {\n		copied[m] = t\n	}\n	return copied','	copied := make(map[string]Translit)\n\n	translitMu.RLock()\n	for scheme := range r {\n		copied[scheme] = r[scheme]\n	}\n	translitMu.RUnlock()\n\n	return copied'))
r('specs: helper loadBundled', (SP,'	filename := "specs/" + lang + ext\n	hsl, err := f.ReadFile(filename)\n\n	if errors.Is(err, fs.ErrNotExist) {\n		// not found\n		return nil, fmt.Errorf("%w: %s", ErrSpecNotFound, lang)\n	}\n\n	spec, err = ParseSpec(strings.NewReader(string(hsl)))\n	if err != nil {\n		// Bundled spec must not have any error.\n		panic(fmt.Errorf("bundled spec \'%s\': %w", lang, err))\n	}\n\n	// Cache it.','	spec, err := readBundled(lang)\n	if err != nil {\n		return nil, err\n	}\n\n	// Cache it.'),
  (SP,None,'\nfunc readBundled(lang string) (*Spec, error) {\n	hsl, err := f.ReadFile("specs/" + lang + ext)\n	if errors.Is(err, fs.ErrNotExist) {\n		return nil, fmt.Errorf("%w: %s", ErrSpecNotFound, lang)\n	}\n	spec, err := ParseSpec(strings.NewReader(string(hsl)))\n	if err != nil {\n		panic(fmt.Errorf("bundled spec \'%s\': %w", lang, err))\n	}\n	return spec, nil\n}\n'))
r('specs: if init', (SP,'	var spec *Spec\n\n	specsMu.Lock()\n	defer specsMu.Unlock()\n\n	spec, ok := specs[lang]\n	if ok {\n		// already loaded\n		return spec, nil\n	}','	specsMu.Lock()\n	defer specsMu.Unlock()\n\n	if cached, ok := specs[lang]; ok {\n		// already loaded\n		return cached, nil\n	}'),(SP,'	spec, err = ParseSpec','	spec, err := ParseSpec'))
r('specs: bytes reader', (SP,'strings.NewReader(string(hsl))','bytes.NewReader(hsl)'),(SP,'import (\n','import (\n	"bytes"\n'))
r('specs: ListLangs cut', (SP,'	for _, ent := range dir {\n		if strings.HasSuffix(ent.Name(), ext) {\n			langs = append(langs, strings.TrimSuffix(ent.Name(), ext))\n		}\n	}','	for i := range dir {\n		name := dir[i].Name()\n		if !strings.HasSuffix(name, ext) {\n			continue\n		}\n		langs = append(langs, name[:len(name)-len(ext)])\n	}'))
r('trace: merged conds', (T,'	if r == nil {\n		return\n	}\n\n	if r.prevWord == t.Word {\n		return\n	}\n	r.prevWord = t.Word\n	r.fn(t)','	if r == nil || r.prevWord == t.Word {\n		return\n	}\n	r.prevWord = t.Word\n	r.fn(t)'))
r('trace: step helper', (T,'	st := newSubwordsTracer(r, "Rewrite", subwords)\n	return st.RecordSubword, st.Commit','	return r.subwordsStep("Rewrite", subwords)'),(T,'	st := newSubwordsTracer(r, "Transcribe", subwords)\n	return st.RecordSubword, st.Commit','	return r.subwordsStep("Transcribe", subwords)'),(T,None,'\nfunc (r *tracer) subwordsStep(step string, subwords []subword.Subword) (func(int, string, Rule), func()) {\n	st := newSubwordsTracer(r, step, subwords)\n	return st.RecordSubword, st.Commit\n}\n'))
r('trace: grow loop', (T,'	if len(r.records) < rule.ID+1 {\n		more := make([]*subwordsTracerRecord, rule.ID+1-len(r.records))\n		r.records = append(r.records, more...)\n	}','	for len(r.records) <= rule.ID {\n		r.records = append(r.records, nil)\n	}'))
r('trace: rec var', (T,'	if r.records[rule.ID] == nil {\n		r.records[rule.ID] = &subwordsTracerRecord{rule, make([]*string, len(r.subwords))}\n	}\n\n	r.records[rule.ID].subwords[i] = &word','	rec := r.records[rule.ID]\n	if rec == nil {\n		rec = &subwordsTracerRecord{rule: rule, subwords: make([]*string, len(r.subwords))}\n		r.records[rule.ID] = rec\n	}\n	rec.subwords[i] = &word'))
r('trace: commit split', (T,'		if dirty {\n			b := subword.NewBuilder(subwords)\n			word := b.String()\n			word = strings.Replace(word, "\\x00", ".", -1)\n\n			r.tracer.trace(Trace{Step: r.step, Word: word, Rule: &rec.rule})\n		}','		if !dirty {\n			continue\n		}\n\n		word := strings.ReplaceAll(subword.NewBuilder(subwords).String(), "\\x00", ".")\n		r.tracer.trace(Trace{Step: r.step, Word: word, Rule: &rec.rule})'))
r('trace: copy builtin', (T,'	subwords := append([]subword.Subword{}, r.subwords...)','	subwords := make([]subword.Subword, len(r.subwords))\n	copy(subwords, r.subwords)'))
r('proc: transliterate helper', (P,'		var err error\n		word, err = t.Transliterate(word)\n		if err != nil {\n			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)\n		}\n','		result, err := t.Transliterate(word)\n		if err != nil {\n			return result, fmt.Errorf("%w: %s", ErrTranslit, scheme)\n		}\n		word = result\n'))
r('proc: forward inline', (P,'	subwords := p.partition(word)\n	subwords = p.rewrite(subwords)\n	subwords = p.transcribe(subwords)\n\n	// phase: finalizing\n	word = p.syllabify(subwords)\n	word = p.localize(word)\n\n	return word, nil','	subwords := p.transcribe(p.rewrite(p.partition(word)))\n\n	// phase: finalizing\n	return p.localize(p.syllabify(subwords)), nil'))
r('proc: normalize helper', (P,'	var buf bytes.Buffer\n\n	for _, let := range word {\n		if except[let] || !script.Is(let) {\n			buf.WriteRune(let)\n		} else {\n			buf.WriteRune(script.Normalize(let))\n		}\n	}\n\n	word = buf.String()\n	p.tracer.Normalize','	word = strings.Map(func(let rune) rune {\n		if except[let] || !script.Is(let) {\n			return let\n		}\n		return script.Normalize(let)\n	}, word)\n	p.tracer.Normalize'))
r('proc: normalize builder', (P,'	var buf bytes.Buffer\n\n	for _, let := range word {\n		if except[let] || !script.Is(let) {\n			buf.WriteRune(let)\n		} else {\n			buf.WriteRune(script.Normalize(let))\n		}\n	}\n\n	word = buf.String()\n	p.tracer.Normalize','	var sb strings.Builder\n\n	for _, let := range word {\n		if !except[let] && script.Is(let) {\n			let = script.Normalize(let)\n		}\n		sb.WriteRune(let)\n	}\n\n	word = sb.String()\n	p.tracer.Normalize'))
r('proc: partition meaningful helper', (P,'		switch {\n		case p.spec.script.Is(let):\n			fallthrough\n		case p.spec.puncts[let]:\n			fallthrough\n		case hasSpaceOnly(letStr):\n			rep.Replace(i, i+len(letStr), letStr)\n		}','		if p.isMeaningful(let) {\n			rep.Replace(i, i+len(letStr), letStr)\n		}'),(P,'// 4. Rewrite (Sub','func (p procedure) isMeaningful(let rune) bool {\n	return p.spec.script.Is(let) || p.spec.puncts[let] || unicode.IsSpace(let)\n}\n\n// 4. Rewrite (Sub'))
r('proc: partition or', (P,'		switch {\n		case p.spec.script.Is(let):\n			fallthrough\n		case p.spec.puncts[let]:\n			fallthrough\n		case hasSpaceOnly(letStr):\n			rep.Replace(i, i+len(letStr), letStr)\n		}','		if !(p.spec.script.Is(let) || p.spec.puncts[let] || hasSpaceOnly(letStr)) {\n			continue\n		}\n		rep.Replace(i, i+len(letStr), letStr)'))
r('proc: rewrite per-subword helper', (P,'		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)\n\n		for _, rule := range p.spec.Rewrite {\n			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n			word = rep.String()\n\n			traceRecordSubword(i, word, rule)\n		}\n\n		swBuf.Write(rep.Subwords()...)','		swBuf.Write(p.rewriteSubword(i, sw, traceRecordSubword)...)'),
 (P,'// 5. Transcribe (Sub','func (p procedure) rewriteSubword(i int, sw subword.Subword, record func(int, string, Rule)) []subword.Subword {\n	word := sw.Word\n	rep := subword.NewReplacer(word, sw.Level, 1)\n\n	for _, rule := range p.spec.Rewrite {\n		rep.ReplaceBy(rule.replacements(word)...)\n		word = rep.String()\n\n		record(i, word, rule)\n	}\n\n	return rep.Subwords()\n}\n\n// 5. Transcribe (Sub'))
r('proc: transcribe mask helper', (P,'			for _, repl := range repls {\n				nulls := strings.Repeat("\\x00", len(repl.Word))\n				dummy.Replace(repl.Start, repl.Stop, nulls)\n			}\n','			mask(dummy, repls)\n'),(P,'// 6. Syllabify (Sub','// mask hides the replaced ranges.\nfunc mask(dummy *subword.Replacer, repls []subword.Replacement) {\n	for _, repl := range repls {\n		dummy.Replace(repl.Start, repl.Stop, strings.Repeat("\\x00", len(repl.Word)))\n	}\n}\n\n// 6. Syllabify (Sub'))
r('proc: transcribe discard helper', (P,'	subwords = swBuf.Subwords()\n	swBuf.Reset()\n\n	for _, sw := range subwords {\n		if sw.Level == 1 {\n			if hasSpace(sw.Word) {\n				swBuf.Write(subword.New(" ", 1))\n			}\n			continue\n		}\n		swBuf.Write(sw)\n	}\n\n	return swBuf.Subwords()','	return discardSuperfluous(swBuf.Subwords())'),(P,'// 6. Syllabify (Sub','func discardSuperfluous(subwords []subword.Subword) []subword.Subword {\n	var buf subword.Builder\n	for _, sw := range subwords {\n		switch {\n		case sw.Level != 1:\n			buf.Write(sw)\n		case hasSpace(sw.Word):\n			buf.Write(subword.New(" ", 1))\n		}\n	}\n	return buf.Subwords()\n}\n\n// 6. Syllabify (Sub'))
r('proc: transcribe order', (P,'			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n\n			for _, repl := range repls {\n				nulls := strings.Repeat("\\x00", len(repl.Word))\n				dummy.Replace(repl.Start, repl.Stop, nulls)\n			}\n','			repls := rule.replacements(word)\n			for _, repl := range repls {\n				nulls := strings.Repeat("\\x00", len(repl.Word))\n				rep.Replace(repl.Start, repl.Stop, repl.Word)\n				dummy.Replace(repl.Start, repl.Stop, nulls)\n			}\n'))
r('proc: syllabify flush closure', (P,'	for _, sw := range subwords {\n		// Don\'t touch','	flush := func() {\n		buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n		jamoBuf.Reset()\n	}\n\n	for _, sw := range subwords {\n		// Don\'t touch'),(P,'			buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n			jamoBuf.Reset()\n\n			buf','			flush()\n			buf'),(P,'	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n\n	word := buf','	flush()\n\n	word := buf'))
r('proc: localize no maps', (P,'	// Pre-evaluate punct or space classification.\n	isPunct := make(map[int]bool)\n	isSpace := make(map[int]bool)\n	for i, ch := range chars {\n		isPunct[i] = unicode.IsPunct(ch)\n		isSpace[i] = unicode.IsSpace(ch)\n	}\n	isSpace[-1] = true\n	isSpace[last+1] = true\n','	isPunct := func(i int) bool {\n		return i >= 0 && i <= last && unicode.IsPunct(chars[i])\n	}\n	isSpace := func(i int) bool {\n		return i < 0 || i > last || unicode.IsSpace(chars[i])\n	}\n'),(P,'!isPunct[i]','!isPunct(i)'),(P,'isPunct[l] || isSpace[l]','isPunct(l) || isSpace(l)'),(P,'isPunct[r] || isSpace[r]','isPunct(r) || isSpace(r)'))
r('proc: localize slices', (P,'	isPunct := make(map[int]bool)\n	isSpace := make(map[int]bool)','	isPunct := make(map[int]bool, len(chars))\n	isSpace := make(map[int]bool, len(chars)+2)'),(P,'		// Trim left after punct or space.\n		l := i - 1\n		if isPunct[l] || isSpace[l] {','		// Trim left after punct or space.\n		if l := i - 1; isPunct[l] || isSpace[l] {'))
r('replacer: levels range', (RP,'	for i := 0; i < len(levels); i++ {\n		levels[i] = prevLevel\n	}\n\n	return &Replacer{word, repls, levels, nextLevel}','	for i := range levels {\n		levels[i] = prevLevel\n	}\n\n	return &Replacer{word: word, repls: repls, levels: levels, nextLevel: nextLevel}'))
r('replacer: commit builder + nil repls', (RP,'	var buf bytes.Buffer\n	var levels []int\n','	var buf strings.Builder\n	levels := make([]int, 0, len(r.levels))\n'),(RP,'	r.repls = make([]Replacement, 0)','	r.repls = nil'),(RP,'	"fmt"\n','	"fmt"\n	"strings"\n'))
r('replacer: commit vars', (RP,'		start := repl.Start\n		stop := repl.Stop\n		word := repl.Word\n\n		// before replacement\n		buf.WriteString(r.word[offset:start])\n		levels = append(levels, r.levels[offset:start]...)\n\n		// replacement\n		buf.WriteString(word)\n		for i := 0; i < len(word); i++ {\n			levels = append(levels, r.nextLevel)\n		}\n\n		offset = stop','		// before replacement\n		buf.WriteString(r.word[offset:repl.Start])\n		levels = append(levels, r.levels[offset:repl.Start]...)\n\n		// replacement\n		buf.WriteString(repl.Word)\n		for range []byte(repl.Word) {\n			levels = append(levels, r.nextLevel)\n		}\n\n		offset = repl.Stop'))
r('replacer: early return no repls', (RP,'	var buf bytes.Buffer\n	var levels []int\n','	if len(r.repls) == 0 {\n		return\n	}\n\n	var buf bytes.Buffer\n	var levels []int\n'))
r('replacer: subwords slice', (RP,'	level := r.levels[0]\n\n	var buf bytes.Buffer\n\n	for i, ch := range r.word {\n		if r.levels[i] != level {\n			subwords = append(subwords, New(buf.String(), level))\n			level = r.levels[i]\n			buf.Reset()\n		}\n		buf.WriteRune(ch)\n	}\n	subwords = append(subwords, New(buf.String(), level))','	start := 0\n	for i := range r.word {\n		if r.levels[i] != r.levels[start] {\n			subwords = append(subwords, New(r.word[start:i], r.levels[start]))\n			start = i\n		}\n	}\n	subwords = append(subwords, New(r.word[start:], r.levels[start]))'))
r('builder: first elem', (BU,'	mergingLevel := -1\n\n	for _, sw := range b.subwords {\n		if sw.Level != mergingLevel && mergingLevel != -1 {','	mergingLevel := b.subwords[0].Level\n\n	for _, sw := range b.subwords {\n		if sw.Level != mergingLevel {'))
r('builder: flush closure', (BU,'			// Keep the merged sw.\n			merged := New(buf.String(), mergingLevel)\n			subwords = append(subwords, merged)\n\n			// Open a new one.\n			buf.Reset()','			flush()'),(BU,'	for _, sw := range b.subwords {\n		if sw.L','	flush := func() {\n		subwords = append(subwords, New(buf.String(), mergingLevel))\n		buf.Reset()\n	}\n\n	for _, sw := range b.subwords {\n		if sw.L'),(BU,'	merged := New(buf.String(), mergingLevel)\n	subwords = append(subwords, merged)\n\n	return','	flush()\n	return'))
r('builder: reset nil', (BU,'b.subwords = b.subwords[:0]','b.subwords = nil'))
