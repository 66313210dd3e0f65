M=[]
P='procedure.go'
def m(n,ed,rc=1,c='C16'): M.append((n,c,ed,rc))
m('swap norm',[(P,'	// Per-spec normalization.\n	word = p.spec.normReplacer.Replace(word)\n	p.tracer.Normalize(word, "")\n',''),(P,'	word = buf.String()\n	p.tracer.Normalize(word, p.spec.Lang.Script)\n','	word = p.spec.normReplacer.Replace(buf.String())\n	p.tracer.Normalize(word, p.spec.Lang.Script)\n')])
m('translit old word',[(P,'	for _, scheme := range p.spec.Lang.Translit {\n','	orig := word\n	for _, scheme := range p.spec.Lang.Translit {\n'),(P,'t.Transliterate(word)','t.Transliterate(orig)')])
m('translit first only',[(P,'		p.tracer.Transliterate(word, t.Scheme())\n	}','		p.tracer.Transliterate(word, t.Scheme())\n		break\n	}')])
m('translit skip unchanged',[(P,'		p.tracer.Transliterate(word, t.Scheme())\n','		if len(word) > 100 { break }\n		p.tracer.Transliterate(word, t.Scheme())\n')])
m('translit skip ascii',[(P,'		var err error\n','		if len(word) == 1 { continue }\n		var err error\n')])
m('translit [1:]',[(P,'range p.spec.Lang.Translit {','range p.spec.Lang.Translit[1:] {')])
m('rewrite not fed',[(P,'			word = rep.String()\n\n			traceRecord','			_ = rep.String()\n\n			traceRecord')])
m('rewrite fed orig',[(P,'			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n			word = rep','			repls := rule.replacements(sw.Word)\n			rep.ReplaceBy(repls...)\n			word = rep')])
m('rewrite fed sometimes',[(P,'			word = rep.String()\n\n			traceRecord','			if rule.ID%2 == 0 { word = rep.String() }\n\n			traceRecord')])
m('rewrite fed when nonempty ok',[(P,'			rep.ReplaceBy(repls...)\n			word = rep.String()\n\n			traceRecord','			if len(repls) > 0 {\n				rep.ReplaceBy(repls...)\n				word = rep.String()\n			}\n\n			traceRecord')],0)
m('rewrite continue when empty ok',[(P,'			rep.ReplaceBy(repls...)\n			word = rep.String()\n\n			traceRecord','			if len(repls) == 0 {\n				traceRecordSubword(i, word, rule)\n				continue\n			}\n			rep.ReplaceBy(repls...)\n			word = rep.String()\n\n			traceRecord')],0)
m('rewrite break on empty',[(P,'			rep.ReplaceBy(repls...)\n			word = rep.String()\n\n			traceRecord','			rep.ReplaceBy(repls...)\n			if rule.ID > 200 { break }\n			word = rep.String()\n\n			traceRecord')])
m('rewrite skip level',[(P,'		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)\n','		if sw.Level == 0 {\n			swBuf.Write(sw)\n			continue\n		}\n		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)\n')])
m('rewrite dropped',[(P,'	subwords = p.rewrite(subwords)\n','	p.rewrite(subwords)\n')])
m('rewrite conditional',[(P,'	subwords = p.rewrite(subwords)\n','	if len(subwords) > 1 { subwords = p.rewrite(subwords) }\n')])
m('rewrite if nonempty ok',[(P,'	subwords = p.rewrite(subwords)\n','	if len(p.spec.Rewrite) > 0 { subwords = p.rewrite(subwords) }\n')],0)
m('rewrite twice',[(P,'	subwords = p.rewrite(subwords)\n','	subwords = p.rewrite(subwords)\n	if len(subwords) > 3 { subwords = p.rewrite(subwords) }\n')])
m('transcribe unmasked',[(P,'			word = dummy.String()\n','')])
m('transcribe unmasked 2',[(P,'			word = dummy.String()\n','			if rule.ID < 10 { word = dummy.String() }\n')])
m('transcribe skip word',[(P,'			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n\n			for','			if len(word) < rule.ID { continue }\n			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n\n			for')])
m('transcribe level 1 skip',[(P,'		if sw.Level == 0 {\n			swBuf.Write(sw)','		if sw.Level <= 1 && len(sw.Word) == 1 {\n			swBuf.Write(sw)')])
m('localize first',[(P,'	word = p.syllabify(subwords)\n	word = p.localize(word)\n','	word2 := p.syllabify(subwords)\n	word = p.localize(word)\n	_ = word2\n')])
m('localize dropped',[(P,'	word = p.localize(word)\n','	p.localize(word)\n')])
m('norm dropped',[(P,'	word = p.normalize(word)\n','	p.normalize(word)\n')])
m('norm returns pre',[(P,'	word = buf.String()\n	p.tracer.Normalize(word, p.spec.Lang.Script)\n	return word','	out := buf.String()\n	p.tracer.Normalize(out, p.spec.Lang.Script)\n	return word')])
m('norm trim',[(P,'	word = p.normalize(word)\n','	word = p.normalize(strings.TrimSpace(word))\n')])
m('norm script loop over orig',[(P,'	word = p.spec.normReplacer.Replace(word)\n	p.tracer.Normalize(word, "")\n','	replaced := p.spec.normReplacer.Replace(word)\n	p.tracer.Normalize(replaced, "")\n')])
m('subwords tail',[(P,'	subwords = p.rewrite(subwords)\n','	if len(subwords) > 2 { subwords = subwords[:2] }\n	subwords = p.rewrite(subwords)\n')])
m('fast path',[(P,'	// phase: transcribing\n','	if !hasSpace(word) && len(word) > 60 { return word, nil }\n	// phase: transcribing\n')])
m('skip localize',[(P,'	word = p.localize(word)\n','	if hasSpace(word) { word = p.localize(word) }\n')])
m('helper',[(P,'	word = p.syllabify(subwords)\n	word = p.localize(word)\n\n	return word, nil\n}','	return p.finalize(subwords), nil\n}\n\nfunc (p procedure) finalize(subwords []subword.Subword) string {\n	return p.localize(p.syllabify(subwords))\n}')],0)
m('index loops',[(P,'	for i, sw := range subwords {\n		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)\n\n		for _, rule := range p.spec.Rewrite {\n','	for i := 0; i < len(subwords); i++ {\n		sw := subwords[i]\n		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)\n\n		for j := range p.spec.Rewrite {\n			rule := p.spec.Rewrite[j]\n')],0)
m('helper rule',[(P,'			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n			word = rep.String()\n','			word = applyRule(rep, rule, word)\n'),(P,'// 4. Rewrite','func applyRule(rep *subword.Replacer, rule Rule, word string) string {\n	repls := rule.replacements(word)\n	rep.ReplaceBy(repls...)\n	return rep.String()\n}\n\n// 4. Rewrite')],0)
m('helper subword',[(P,'		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)\n\n		for _, rule := range p.spec.Rewrite {\n			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n			word = rep.String()\n\n			traceRecordSubword(i, word, rule)\n		}\n\n		swBuf.Write(rep.Subwords()...)','		swBuf.Write(p.rewriteSubword(sw, func(word string, rule Rule) { traceRecordSubword(i, word, rule) })...)'),(P,'// 4. Rewrite','func (p procedure) rewriteSubword(sw subword.Subword, rec func(string, Rule)) []subword.Subword {\n	word := sw.Word\n	rep := subword.NewReplacer(word, sw.Level, 1)\n	for _, rule := range p.spec.Rewrite {\n		rep.ReplaceBy(rule.replacements(word)...)\n		word = rep.String()\n		rec(word, rule)\n	}\n	return rep.Subwords()\n}\n\n// 4. Rewrite')],0)
m('rep string directly',[(P,'			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n			word = rep.String()\n\n			traceRecordSubword(i, word, rule)','			rep.ReplaceBy(rule.replacements(rep.String())...)\n			traceRecordSubword(i, rep.String(), rule)'),(P,'		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)\n','		rep := subword.NewReplacer(sw.Word, sw.Level, 1)\n')],0)
m('translit helper',[(P,'		var err error\n		word, err = t.Transliterate(word)\n		if err != nil {\n			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)\n		}\n','		next, err := t.Transliterate(word)\n		if err != nil {\n			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)\n		}\n		word = next\n')],0)
m('translit none early ok',[(P,'	for _, scheme := range p.spec.Lang.Translit {\n','	if len(p.spec.Lang.Translit) == 0 {\n		return word, nil\n	}\n	for _, scheme := range p.spec.Lang.Translit {\n')],0)
m('lookup first',[(P,'	for _, scheme := range p.spec.Lang.Translit {\n		t, ok := p.translits[scheme]\n		if !ok {\n			return word, fmt.Errorf("%w: %s", ErrTranslitNotImported, scheme)\n		}\n','	var ts []Translit\n	for _, scheme := range p.spec.Lang.Translit {\n		t, ok := p.translits[scheme]\n		if !ok {\n			return word, fmt.Errorf("%w: %s", ErrTranslitNotImported, scheme)\n		}\n		ts = append(ts, t)\n	}\n	for i, t := range ts {\n		scheme := p.spec.Lang.Translit[i]\n')],0)
m('localize runes',[(P,'	for i, ch := range chars {\n		// Skip ZWSP.','	for i := 0; i < len(chars); i++ {\n		ch := chars[i]\n		// Skip ZWSP.')],0)
m('localize from 1',[(P,'	for i, ch := range chars {\n		// Skip ZWSP.','	for i := 1; i < len(chars); i++ {\n		ch := chars[i]\n		// Skip ZWSP.')])
m('syllabify stops',[(P,'		jamoBuf.WriteString(sw.Word)\n	}','		jamoBuf.WriteString(sw.Word)\n		if sw.Level == 3 { break }\n	}')])
m('rewrite rules reversed',[(P,'		for _, rule := range p.spec.Rewrite {\n','		for j := len(p.spec.Rewrite) - 1; j >= 0; j-- {\n			rule := p.spec.Rewrite[j]\n')])
m('transcribe uses rewrite rules',[(P,'		for _, rule := range p.spec.Transcribe {','		for _, rule := range p.spec.Rewrite {')])
m('state struct',[(P,'	word = p.syllabify(subwords)\n	word = p.localize(word)\n\n	return word, nil','	st := struct{ word string }{p.syllabify(subwords)}\n	st.word = p.localize(st.word)\n\n	return st.word, nil')],0)
m('state struct bug',[(P,'	word = p.syllabify(subwords)\n	word = p.localize(word)\n\n	return word, nil','	st := struct{ word string }{p.syllabify(subwords)}\n	res := p.localize(st.word)\n	if len(res) == 0 { res = st.word }\n\n	return res, nil')])
m('repls dropped',[(P,'			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n			word = rep.String()\n','			_ = rule.replacements(word)\n			word = rep.String()\n')])
m('interp skip',[('rule.go','	for _, m := range r.From.Find(word, -1) {\n','	for _, m := range r.From.Find(word, 10) {\n')])
m('first match only',[('rule.go','		repls = append(repls, subword.NewReplacement(start, stop, repl))\n','		repls = append(repls, subword.NewReplacement(start, stop, repl))\n		if len(repls) == 64 {\n			break\n		}\n')])
