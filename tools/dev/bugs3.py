exec(open('/tmp/bugs1.py').read().split("# C01")[0])
# C16
b('last rule skipped','C16',(P,'		for _, rule := range p.spec.Transcribe {','		for i := range p.spec.Transcribe {\n			if i > 1000 {\n				break\n			}\n			rule := p.spec.Transcribe[i]'))
b('normalize before translit','C16',(P,'	word, err := p.transliterate(word)\n	if err != nil {\n		return "", err\n	}\n	word = p.normalize(word)','	word, err := p.transliterate(p.normalize(word))\n	if err != nil {\n		return "", err\n	}'))
b('rewrite twice','C16',(P,'	subwords = p.rewrite(subwords)\n','	subwords = p.rewrite(subwords)\n	if len(subwords) > 64 {\n		subwords = p.rewrite(subwords)\n	}\n'))
b('rewrite level0 skip','C16',(P,'		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)','		word := sw.Word\n		level := sw.Level\n\n		if len(word) > 1024 {\n			swBuf.Write(sw)\n			continue\n		}\n\n		rep := subword.NewReplacer(word, level, 1)'))
b('translit reset','C16',(P,'		word, err = t.Transliterate(word)','		var w string\n		w, err = t.Transliterate(orig)\n		if w != orig {\n			word = w\n		}'),(P,'	for _, scheme := range p.spec.Lang.Translit {','	orig := word\n	for _, scheme := range p.spec.Lang.Translit {'))
b('ascii skip norm','C16',(P,'		if except[let] || !script.Is(let) {','		if let == \'İ\' || except[let] || !script.Is(let) {'))
b('stop rules when masked','C16',(P,'			word = dummy.String()\n','			word = dummy.String()\n			if strings.Trim(word, "\\x00") == "" {\n				break\n			}\n'))
b('skip punct localize','C16',(P,'	word = p.localize(word)\n\n	return word','	if p.spec.Lang.Script != "" {\n		word = p.localize(word)\n	}\n\n	return word'))
b('rule repeat','C16',(P,'			word = rep.String()\n\n			traceRecordSubword','			word = rep.String()\n			if len(repls) > 8 {\n				rep.ReplaceBy(rule.replacements(word)...)\n				word = rep.String()\n			}\n\n			traceRecordSubword'))
b('subwords cap','C16 C19',(P,'		swBuf.Write(rep.Subwords()...)\n	}\n\n	return swBuf.Subwords()\n}\n\n// 5','		if i < 4096 {\n			swBuf.Write(rep.Subwords()...)\n		}\n	}\n\n	return swBuf.Subwords()\n}\n\n// 5'))
b('translit early out','C16 C08',(P,'		t, ok := p.translits[scheme]\n		if !ok {','		if word == "" {\n			break\n		}\n		t, ok := p.translits[scheme]\n		if !ok {'))
b('normReplacer twice','C16',(P,'	word = p.spec.normReplacer.Replace(word)\n','	word = p.spec.normReplacer.Replace(p.spec.normReplacer.Replace(word))\n'))
b('syllabify before last','C16 C19 C17',(P,'	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n\n	word := buf','	if jamoBuf.Len() > 3 {\n		buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n	}\n\n	word := buf'))
# C17
b('score geq','C17',(JA,'if score <= prevScore {','if score < prevScore {'))
b('no final','C17',(JA,'	if prevScore != -1 {\n		c.write()\n	}\n\n	return','	if prevScore > 0 {\n		c.write()\n	}\n\n	return'))
b('nonhangul no flush','C17',(JA,'			if prevScore != -1 {\n				c.write()\n			}\n','			if prevScore > 0 {\n				c.write()\n			}\n'))
b('composed no write','C17',(JA,'			c.write()\n\n			// Decompose','			if prevScore != lead {\n				c.write()\n			}\n\n			// Decompose'))
b('clear partly','C17',(JA,'	c.lmt = [3]rune{}\n}\n\n// Compose','	c.lmt[lead], c.lmt[medial] = 0, 0\n}\n\n// Compose'))
b('tail medial','C17',(JA,'			if c.lmt[tail] == 0 {\n				score = medial\n			} else {\n				score = tail\n			}','			score = medial'))
b('hyphen end','C17',(JA,'		if ch == \'-\' {\n			isTail = true\n			continue\n		}','		if ch == \'-\' && !isTail {\n			isTail = true\n			continue\n		}') )
b('fill lead wrong slot','C17',(JA,"	if c.lmt[medial] == 0 {\n		c.lmt[medial] = 'ㅡ'\n	}","	if c.lmt[medial] == 0 && c.lmt[tail] == 0 {\n		c.buf.WriteRune(c.lmt[lead])\n		c.lmt = [3]rune{}\n		return\n	}\n	if c.lmt[medial] == 0 {\n		c.lmt[medial] = 'ㅡ'\n	}"))
b('prevScore kept','C17',(JA,'			c.buf.WriteRune(ch)\n			prevScore = -1\n','			c.buf.WriteRune(ch)\n'))
# C18
b('unload lower','C18',(SP,'	delete(specs, lang)','	delete(specs, strings.ToLower(lang))'))
b('cache by id','C18',(SP,'	specs[lang] = spec\n	return','	specs[spec.Lang.ID] = spec\n	return'))
b('alias fallback','C18',(SP,'	filename := "specs/" + lang + ext','	if i := strings.IndexByte(lang, \'-\'); i > 0 {\n		if base, ok := specs[lang[:i]]; ok {\n			return base, nil\n		}\n	}\n	filename := "specs/" + lang + ext'))
b('listlangs cached','C18',(SP,'	sort.Strings(langs)\n	return langs','	sort.Strings(langs)\n	if len(specs) > len(langs) {\n		langs = langs[:0]\n		for l := range specs {\n			langs = append(langs, l)\n		}\n	}\n	return langs'))
b('unload cond','C18',(SP,'	delete(specs, lang)','	if len(specs) > 1 {\n		delete(specs, lang)\n	}'))
b('bounded cache','C18',(SP,'	// Cache it.\n	specs[lang] = spec','	// Cache it.\n	if len(specs) >= 16 {\n		for old := range specs {\n			delete(specs, old)\n			break\n		}\n	}\n	specs[lang] = spec'))
# C19
b('level0 trimmed','C19',(P,'			buf.WriteString(sw.Word)\n			continue\n		}\n		jamoBuf','			buf.WriteString(strings.TrimSpace(sw.Word))\n			continue\n		}\n		jamoBuf'))
b('builder last','C19',(BU,'	merged := New(buf.String(), mergingLevel)\n	subwords = append(subwords, merged)\n\n	return','	if buf.Len() > 0 || mergingLevel > 0 {\n		merged := New(buf.String(), mergingLevel)\n		if mergingLevel != 0 || buf.Len() > 1 {\n			subwords = append(subwords, merged)\n		}\n	}\n\n	return'))
b('merge no reset','C19',(BU,'			// Open a new one.\n			buf.Reset()','			// Open a new one.\n			if mergingLevel != 1 {\n				buf.Reset()\n			}'))
b('discard level0 spaces','C19',(P,'		if sw.Level == 1 {\n			if hasSpace','		if sw.Level <= 1 && (sw.Level == 1 || hasSpaceOnly(sw.Word)) {\n			if hasSpace'))
b('level0 transcribed','C19',(P,'		if sw.Level == 0 {\n			swBuf.Write(sw)\n			continue\n		}\n\n		word := sw.Word','		if sw.Level == 0 && len(sw.Word) > 1 {\n			swBuf.Write(sw)\n			continue\n		}\n\n		word := sw.Word'))
b('level by rune','C19',(RP,'		if r.levels[i] != level {\n			subwords = append','		if r.levels[i] > level || r.levels[i] < level && level > 1 {\n			subwords = append'))
b('jamo not reset','C19',(P,'			jamoBuf.Reset()\n\n			buf.WriteString(sw.Word)','			if sw.Word != " " {\n				jamoBuf.Reset()\n			}\n\n			buf.WriteString(sw.Word)'))
b('partition marks','C19',(P,'		case hasSpaceOnly(letStr):','		case unicode.IsDigit(let):\n			fallthrough\n		case hasSpaceOnly(letStr):'))
b('trim right','C19',(P,'	word := buf.String()\n	p.tracer.Syllabify','	word := strings.TrimRight(buf.String(), "\\x00")\n	p.tracer.Syllabify'))
# C20
b('prevword after fn cond','C20',(T,'	if r.prevWord == t.Word {\n		return\n	}\n	r.prevWord = t.Word\n','	if r.prevWord == t.Word && t.Step != "Localize" {\n		return\n	}\n	r.prevWord = t.Word\n'))
b('skip empty','C20',(T,'	if r.prevWord == t.Word {','	if r.prevWord == t.Word || t.Word == "" {'))
b('step name','C20',(T,'"Transcribe", subwords)\n	return','"Rewrite", subwords)\n	return'))
b('commit not deferred','C20',(P,'	traceSubword, trace := p.tracer.Transcribe(subwords)\n	defer trace()\n','	traceSubword, trace := p.tracer.Transcribe(subwords)\n	if len(subwords) < 100 {\n		defer trace()\n	}\n'))
b('record first only','C20',(T,'	r.records[rule.ID].subwords[i] = &word','	if r.records[rule.ID].subwords[i] == nil || i == 0 {\n		r.records[rule.ID].subwords[i] = &word\n	}'))
b('localize traced before','C20',(P,'	word = buf.String()\n	p.tracer.Localize(word, p.spec.Lang.Script)\n	return word','	p.tracer.Localize(buf.String(), p.spec.Lang.Script)\n	return strings.TrimSpace(buf.String())'))
b('norm event name','C20',(T,'Trace{Step: "Syllabify", Word: word}','Trace{Step: "Localize", Word: word}'))
b('commit stop at gap','C20',(T,'		if dirty {\n			b :=','		if len(rec.subwords) > 1 && rec.subwords[0] == nil {\n			break\n		}\n		if dirty {\n			b :='))
b('trace error','C20',(P,'	word, err := p.transliterate(word)\n	if err != nil {','	word, err := p.transliterate(word)\n	if err != nil && p.tracer != nil {\n		p.tracer.fn(Trace{Step: "Input", Word: word})\n	}\n	if err != nil {'))
b('rec before string','C20',(P,'			word = rep.String()\n\n			traceRecordSubword(i, word, rule)','			traceRecordSubword(i, word, rule)\n			word = rep.String()\n'))
# C21
b('varindex minus','C21',(RPA,'if varIndex > len(p.usedVars)-1 {','if varIndex > len(p.usedVars) {'))
b('no capture check','C21',(RPA,'			if len(m) < (varIndex+2)*2 {','			if len(m) < (varIndex+1)*2 {'))
b('usedvar empty','C21',(RPA,'			if len(part.usedVar) == 0 {','			if part.usedVar == nil {'))
b('idx neg','C21',(RPA,'			if i == -1 {\n				return "", errors.Errorf("%#v is not in mapped var", fromVal)\n			}\n			i = i','			i = i'))
b('rule fail removes','C21',(RU,'			// FIXME(sublee): Shouldn\'t it throw an error?\n			continue','			// FIXME(sublee): Shouldn\'t it throw an error?\n			repl = ""'))
b('replace partial','C21',(PA,'		if err == nil {\n			buf.WriteString(repl)\n		} else {\n			buf.WriteString(word[start:stop])\n		}','		if err == nil || repl != "" {\n			buf.WriteString(repl)\n		} else {\n			buf.WriteString(word[start:stop])\n		}'),(RPA,'			if i == -1 {\n				return "", errors','			if i == -1 {\n				return buf.String(), errors'))
