M=[]
def m(n,ed,rc=1,c='C05'): M.append((n,c,ed,rc))
m('traced fast',[('procedure.go','	subwords = p.transcribe(subwords)\n','	if p.tracer != nil || len(subwords) > 0 {\n		subwords = p.transcribe(subwords)\n	}\n')])
m('rule ptr',[('trace.go','	rule Rule\n','	rule *Rule\n'),('trace.go','&subwordsTracerRecord{rule, make','&subwordsTracerRecord{&rule, make'),('trace.go','Rule: &rec.rule}','Rule: rec.rule}')],0)
m('rule ptr to spec',[('trace.go','	rule Rule\n','	rule *Rule\n'),('trace.go','&subwordsTracerRecord{rule, make','&subwordsTracerRecord{rule, make'),('trace.go','Rule: &rec.rule}','Rule: rec.rule}'),('trace.go','func (r *tracer) Rewrite(subwords []subword.Subword) (func(int, string, Rule), func())','func (r *tracer) Rewrite(subwords []subword.Subword) (func(int, string, *Rule), func())'),('trace.go','func (r *tracer) Transcribe(subwords []subword.Subword) (func(int, string, Rule), func())','func (r *tracer) Transcribe(subwords []subword.Subword) (func(int, string, *Rule), func())'),('trace.go','word string, rule Rule)','word string, rule *Rule)'),('procedure.go','		for _, rule := range p.spec.Rewrite {\n','		for ri := range p.spec.Rewrite {\n			rule := &p.spec.Rewrite[ri]\n'),('procedure.go','		for _, rule := range p.spec.Transcribe {\n','		for ri := range p.spec.Transcribe {\n			rule := &p.spec.Transcribe[ri]\n')])
m('shared rule var',[('trace.go','	for _, rec := range r.records {\n		dirty := false','	var rule Rule\n	for _, rec := range r.records {\n		rule = rec.rule\n		dirty := false'),('trace.go','Rule: &rec.rule}','Rule: &rule}')])
m('local rule ok',[('trace.go','	for _, rec := range r.records {\n		dirty := false','	for _, rec := range r.records {\n		rule := rec.rule\n		dirty := false'),('trace.go','Rule: &rec.rule}','Rule: &rule}')],0)
m('loopvar copies (go1.19: shared)',[('trace.go','	records  []*subwordsTracerRecord','	records  []subwordsTracerRecord'),('trace.go','make([]*subwordsTracerRecord, ','make([]subwordsTracerRecord, '),('trace.go','	if r.records[rule.ID] == nil {\n		r.records[rule.ID] = &subwordsTracerRecord','	if r.records[rule.ID].subwords == nil {\n		r.records[rule.ID] = subwordsTracerRecord')])
m('record only changed',[('procedure.go','			traceRecordSubword(i, word, rule)','			if len(repls) > 0 {\n				traceRecordSubword(i, word, rule)\n			}')])
m('record only changed, guarded',[('procedure.go','			traceRecordSubword(i, word, rule)','			if len(repls) > 0 {\n				traceRecordSubword(i, word, rule)\n			}'),('trace.go','		dirty := false\n','		if rec == nil {\n			continue\n		}\n		dirty := false\n')],0)
m('record skips short',[('trace.go','	if len(r.records) < rule.ID+1 {','	if word == "" {\n		return\n	}\n	if len(r.records) < rule.ID+1 {')])
m('in place',[('trace.go','	subwords := append([]subword.Subword{}, r.subwords...)','	subwords := r.subwords'),('procedure.go','	traceRecordSubword, traceCommit := p.tracer.Rewrite(subwords)\n	defer traceCommit()\n','	traceRecordSubword, traceCommit := p.tracer.Rewrite(subwords)\n'),('procedure.go','		swBuf.Write(rep.Subwords()...)\n	}\n\n	return swBuf','		traceCommit()\n		swBuf.Write(rep.Subwords()...)\n	}\n\n	return swBuf')])
m('helper in forward',[('procedure.go','	p.tracer.Input(word)\n','	if p.tracer != nil {\n		p.tracer.Input(word)\n	}\n')],0)
m('deferless',[('procedure.go','	defer traceCommit()\n','	defer func() { traceCommit() }()\n')],0)
m('norm via tracer',[('trace.go','func (r *tracer) Normalize(word, script string) {\n	r.trace(Trace{Step: "Normalize", Word: word, Why: script})\n','func (r *tracer) Normalize(word, script string) string {\n	if r == nil {\n		return word\n	}\n	r.trace(Trace{Step: "Normalize", Word: word, Why: script})\n	return strings.TrimSpace(word)\n'),('procedure.go','	p.tracer.Normalize(word, p.spec.Lang.Script)','	word = p.tracer.Normalize(word, p.spec.Lang.Script)')])
m('wrap event helper',[('trace.go','	r.prevWord = t.Word\n	r.fn(t)\n','	r.emit(t)\n'),('trace.go','// Input traces','func (r *tracer) emit(t Trace) {\n	r.prevWord = t.Word\n	r.fn(t)\n}\n\n// Input traces')],0)
m('error on trace',[('procedure.go','			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)','			if p.tracer != nil {\n				return word, nil\n			}\n			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)')])
m('event with subwords',[('trace.go','	Rule *Rule\n}','	Rule *Rule\n	Subwords []subword.Subword\n}'),('trace.go','	r.fn(t)\n','	t.Subwords = r.cur\n	r.fn(t)\n'),('trace.go','	prevWord string\n}','	prevWord string\n	cur []subword.Subword\n}'),('trace.go','&tracer{fn, ""}','&tracer{fn, "", nil}'),('procedure.go','	subwords = p.rewrite(subwords)\n','	if p.tracer != nil { p.tracer.cur = subwords }\n	p.tracer.Input("x")\n	subwords = p.rewrite(subwords)\n')])
m('spec of event',[('trace.go','	Rule *Rule\n}','	Rule *Rule\n	Spec *Spec\n}'),('trace.go','	r.fn(t)\n','	t.Spec = r.spec\n	r.fn(t)\n'),('trace.go','	prevWord string\n}','	prevWord string\n	spec *Spec\n}'),('trace.go','&tracer{fn, ""}','&tracer{fn, "", nil}'),('procedure.go','	p.tracer.Input(word)','	if p.tracer != nil { p.tracer.spec = p.spec }\n	p.tracer.Input(word)')])
