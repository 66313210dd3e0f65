M=[]
P='procedure.go'
T='trace.go'
def m(n,ed,rc=1,c='C20'): M.append((n,c,ed,rc))
m('input after translit',[(P,'	p.tracer.Input(word)\n\n	// phase: preparing\n	word, err := p.transliterate(word)\n','	// phase: preparing\n	word, err := p.transliterate(word)\n	p.tracer.Input(word)\n')])
m('input if long',[(P,'	p.tracer.Input(word)\n','	if len(word) > 1 { p.tracer.Input(word) }\n')])
m('input trimmed',[(P,'	p.tracer.Input(word)\n','	p.tracer.Input(strings.TrimSpace(word))\n')])
m('input dropped',[(P,'	p.tracer.Input(word)\n','')])
m('no dedupe',[(T,'	if r.prevWord == t.Word {\n		return\n	}\n','')])
m('dedupe only no rule',[(T,'r.prevWord == t.Word {','t.Rule == nil && r.prevWord == t.Word {')])
m('dedupe drops rule',[(T,'r.prevWord == t.Word {','r.prevWord == t.Word || t.Rule != nil && t.Rule.ID > 90 {')])
m('prev not updated',[(T,'	r.prevWord = t.Word\n','	if t.Rule == nil { r.prevWord = t.Word }\n')])
m('prev updated early',[(T,'	if r.prevWord == t.Word {\n		return\n	}\n	r.prevWord = t.Word\n','	prev := r.prevWord\n	r.prevWord = t.Word\n	if prev == t.Word {\n		return\n	}\n')],0)
m('prev updated after fn',[(T,'	r.prevWord = t.Word\n	r.fn(t)\n','	r.fn(t)\n	r.prevWord = t.Word\n')],0)
m('prev fold',[(T,'r.prevWord == t.Word {','strings.EqualFold(r.prevWord, t.Word) {')])
m('prev trim',[(T,'r.prevWord == t.Word {','r.prevWord == strings.TrimSpace(t.Word) {')])
m('prev len',[(T,'r.prevWord == t.Word {','len(r.prevWord) == len(t.Word) {')])
m('translit before',[(P,'		var err error\n		word, err = t.Transliterate(word)\n','		p.tracer.Transliterate(word, t.Scheme())\n		var err error\n		word, err = t.Transliterate(word)\n'),(P,'		p.tracer.Transliterate(word, t.Scheme())\n	}','	}')])
m('translit once after loop',[(P,'		p.tracer.Transliterate(word, t.Scheme())\n	}\n','	}\n	p.tracer.Transliterate(word, "all")\n')])
m('translit dropped',[(P,'		p.tracer.Transliterate(word, t.Scheme())\n	}\n','	}\n')])
m('norm spec dropped',[(P,'	p.tracer.Normalize(word, "")\n','')])
m('norm spec stale',[(P,'	word = p.spec.normReplacer.Replace(word)\n	p.tracer.Normalize(word, "")\n','	p.tracer.Normalize(word, "")\n	word = p.spec.normReplacer.Replace(word)\n')])
m('norm script dropped',[(P,'	word = buf.String()\n	p.tracer.Normalize(word, p.spec.Lang.Script)\n','	word = buf.String()\n')])
m('norm script stale',[(P,'	word = buf.String()\n	p.tracer.Normalize(word, p.spec.Lang.Script)\n','	p.tracer.Normalize(word, p.spec.Lang.Script)\n	word = buf.String()\n')])
m('rewrite record stale',[(P,'			rep.ReplaceBy(repls...)\n			word = rep.String()\n\n			traceRecordSubword(i, word, rule)','			rep.ReplaceBy(repls...)\n			traceRecordSubword(i, word, rule)\n			word = rep.String()')])
m('rewrite not recorded',[(P,'			traceRecordSubword(i, word, rule)','			_ = i')])
m('rewrite recorded if changed',[(P,'			word = rep.String()\n\n			traceRecordSubword(i, word, rule)','			word = rep.String()\n			if len(repls) > 0 {\n				traceRecordSubword(i, word, rule)\n			}')],0)
m('rewrite record index 0',[(P,'			traceRecordSubword(i, word, rule)','			traceRecordSubword(0, word, rule)')],None)
m('transcribe records mask',[(P,'			traceSubword(i, rep.String(), rule)','			traceSubword(i, word, rule)')])
m('transcribe not recorded',[(P,'			traceSubword(i, rep.String(), rule)','')])
m('transcribe record before',[(P,'			rep.ReplaceBy(repls...)\n\n			for _, repl','			traceSubword(i, rep.String(), rule)\n			rep.ReplaceBy(repls...)\n\n			for _, repl'),(P,'			traceSubword(i, rep.String(), rule)\n		}\n\n		swBuf','		}\n\n		swBuf')])
m('names swapped',[(P,'	traceSubword, trace := p.tracer.Transcribe(subwords)','	traceSubword, trace := p.tracer.Rewrite(subwords)')])
m('name wrong',[(T,'Step: "Localize"','Step: "Syllabify"')])
m('name wrong 2',[(T,'newSubwordsTracer(r, "Transcribe", subwords)','newSubwordsTracer(r, "Rewrite", subwords)')])
m('syllabify dropped',[(P,'	p.tracer.Syllabify(word)\n','')])
m('syllabify stale',[(P,'	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n\n	word := buf.String()\n	p.tracer.Syllabify(word)\n','	word := buf.String()\n	p.tracer.Syllabify(word)\n	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n	word = buf.String()\n')])
m('commit missing rewrite',[(P,'	defer traceCommit()\n','	_ = traceCommit\n')])
m('commit early rewrite',[(P,'	defer traceCommit()\n','	traceCommit()\n')])
m('commit deferless ok',[(P,'	defer traceCommit()\n',''),(P,'		swBuf.Write(rep.Subwords()...)\n	}\n\n	return swBuf.Subwords()\n}\n\n// 5.','		swBuf.Write(rep.Subwords()...)\n	}\n\n	traceCommit()\n	return swBuf.Subwords()\n}\n\n// 5.')],0)
m('commit last dirty',[(T,'		if dirty {\n','		if dirty && rec.rule.ID > 0 {\n')])
m('commit skip first word',[(T,'			if word == nil {\n','			if word == nil || i == 0 {\n')])
m('commit from original each time',[(T,'	subwords := append([]subword.Subword{}, r.subwords...)\n\n	for _, rec := range r.records {\n		dirty := false\n','	for _, rec := range r.records {\n		subwords := append([]subword.Subword{}, r.subwords...)\n		dirty := false\n')],0)
m('record keep first',[(T,'	r.records[rule.ID].subwords[i] = &word\n','	if r.records[rule.ID].subwords[i] == nil {\n		r.records[rule.ID].subwords[i] = &word\n	}\n')],None)
m('tracer for first only',[(P,'	return &procedure{spec, translits, newTracer(traceFunc)}','	return &procedure{spec, translits, newTracer(nil)}')])
m('localize event missing',[(P,'	p.tracer.Localize(','	if len(word) > 3 { return word }\n	p.tracer.Localize(')],None)
m('emit helper',[(T,'	r.prevWord = t.Word\n	r.fn(t)\n}','	r.emit(t)\n}\n\nfunc (r *tracer) emit(t Trace) {\n	r.prevWord = t.Word\n	r.fn(t)\n}')],0)
m('guarded input ok',[(P,'	p.tracer.Input(word)\n','	if p.tracer != nil {\n		p.tracer.Input(word)\n	}\n')],0)
m('positive trace',[(T,'	if r == nil {\n		return\n	}\n\n	if r.prevWord == t.Word {\n		return\n	}\n	r.prevWord = t.Word\n	r.fn(t)\n','	if r != nil && r.prevWord != t.Word {\n		r.prevWord = t.Word\n		r.fn(t)\n	}\n')],0)
m('helper changed',[(T,'	if r.prevWord == t.Word {\n		return\n	}\n	r.prevWord = t.Word\n	r.fn(t)\n','	if r.changed(t.Word) {\n		r.fn(t)\n	}\n'),(T,'// Input traces','func (r *tracer) changed(word string) bool {\n	if r.prevWord == word {\n		return false\n	}\n	r.prevWord = word\n	return true\n}\n\n// Input traces')],0)
m('finalize helper',[(P,'	word = p.syllabify(subwords)\n	word = p.localize(word)\n\n	return word, nil\n}','	return p.finalize(subwords), nil\n}\n\nfunc (p procedure) finalize(subwords []subword.Subword) string {\n	return p.localize(p.syllabify(subwords))\n}')],0)
m('result trimmed',[(P,'	return word, nil\n}\n\n// 1. ','	return strings.TrimSpace(word), nil\n}\n\n// 1. ')])
m('events moved to forward',[(P,'	word = p.syllabify(subwords)\n','	word = p.syllabify(subwords)\n	p.tracer.Syllabify(word)\n'),(P,'	word := buf.String()\n	p.tracer.Syllabify(word)\n	return word\n','	return buf.String()\n')],0)
m('commit index loop ok',[(T,'	for _, rec := range r.records {\n','	for ri := 0; ri < len(r.records); ri++ {\n		rec := r.records[ri]\n')],0)
m('commit merge helper ok',[(T,'		if dirty {\n			b := subword.NewBuilder(subwords)\n			word := b.String()\n			word = strings.Replace(word, "\\x00", ".", -1)\n\n			r.tracer.trace(Trace{Step: r.step, Word: word, Rule: &rec.rule})\n		}\n	}\n}','		if dirty {\n			r.emit(subwords, rec)\n		}\n	}\n}\n\nfunc (r *subwordsTracer) emit(subwords []subword.Subword, rec *subwordsTracerRecord) {\n	b := subword.NewBuilder(subwords)\n	word := strings.ReplaceAll(b.String(), "\\x00", ".")\n	r.tracer.trace(Trace{Step: r.step, Word: word, Rule: &rec.rule})\n}')],0)
m('commit continue ok',[(T,'		if dirty {\n			b := subword.NewBuilder(subwords)\n			word := b.String()\n			word = strings.Replace(word, "\\x00", ".", -1)\n\n			r.tracer.trace(Trace{Step: r.step, Word: word, Rule: &rec.rule})\n		}\n','		if !dirty {\n			continue\n		}\n		b := subword.NewBuilder(subwords)\n		word := b.String()\n		word = strings.Replace(word, "\\x00", ".", -1)\n		r.tracer.trace(Trace{Step: r.step, Word: word, Rule: &rec.rule})\n')],0)
m('localize trace early',[(P,'word = p.localize(word)\n','p.tracer.Localize(word, "x")\n	word = p.localize(word)\n')])
m('record index 0',[(P,'			traceRecordSubword(i, word, rule)','			traceRecordSubword(i*0, word, rule)')],None)
m('record index const',[(P,'	for i, sw := range subwords {\n		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)','	for _, sw := range subwords {\n		word := sw.Word\n		level := sw.Level\n\n		rep := subword.NewReplacer(word, level, 1)'),(P,'			traceRecordSubword(i, word, rule)','			traceRecordSubword(0, word, rule)')])
m('record stored at 0',[(T,'	r.records[rule.ID].subwords[i] = &word','	r.records[rule.ID].subwords[0] = &word')])
m('record skip rule 0',[(T,'	if len(r.records) < rule.ID+1 {','	if rule.ID == 0 {\n		return\n	}\n	if len(r.records) < rule.ID+1 {')])
m('transcribe rewriter rewrite not told if single',[(P,'			traceSubword(i, rep.String(), rule)','			if len(repls) != 1 {\n			traceSubword(i, rep.String(), rule)\n			}')])
m('grow loop ok',[(T,'	if len(r.records) < rule.ID+1 {\n		more := make([]*subwordsTracerRecord, rule.ID+1-len(r.records))\n		r.records = append(r.records, more...)\n	}\n','	for rule.ID >= len(r.records) {\n		r.records = append(r.records, nil)\n	}\n')],0)
m('rename ok',[],0)
m('transcribe told text var ok',[(P,'			traceSubword(i, rep.String(), rule)','			text := rep.String()\n			traceSubword(i, text, rule)')],0)
m('rewrite helper ok',[(P,'			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n			word = rep.String()\n\n			traceRecordSubword(i, word, rule)\n','			word = p.rewriteBy(rule, rep, word)\n			traceRecordSubword(i, word, rule)\n'),(P,'// 5. Trans','func (p procedure) rewriteBy(rule Rule, rep *subword.Replacer, word string) string {\n	rep.ReplaceBy(rule.replacements(word)...)\n	return rep.String()\n}\n\n// 5. Trans')],0)

m('fresh list and only changes',[(P,'			traceRecordSubword(i, word, rule)','			if len(repls) > 0 {\n				traceRecordSubword(i, word, rule)\n			}'),(T,'	subwords := append([]subword.Subword{}, r.subwords...)\n\n	for _, rec := range r.records {\n		dirty := false\n','	for _, rec := range r.records {\n		subwords := append([]subword.Subword{}, r.subwords...)\n		if rec == nil { continue }\n		dirty := false\n')])
