M=[]
def m(n,ed,rc=1,c='C04'): M.append((n,c,ed,rc))
m('h.last',[('hangulize.go','	traceFunc        func(Trace)\n}','	traceFunc        func(Trace)\n	last string\n}'),('hangulize.go','&hangulizer{spec, defaultTranslitRegistry, nil}','&hangulizer{spec, defaultTranslitRegistry, nil, ""}'),('hangulize.go','make(translitRegistry), nil}','make(translitRegistry), nil, ""}'),('hangulize.go','	p := newProcedure','	h.last = word\n	p := newProcedure')])
m('append spec',[('procedure.go','	script := p.spec.script\n	except := p.spec.normLetters\n','	script := p.spec.script\n	except := p.spec.normLetters\n	for _, l := range word { if !script.Is(l) { except[l] = true } }\n')])
m('global buf',[('procedure.go','// procedure implements','var sharedBuf bytes.Buffer\n\n// procedure implements'),('procedure.go','	var buf bytes.Buffer\n	var jamoBuf bytes.Buffer','	buf := &sharedBuf\n	var jamoBuf bytes.Buffer')])
m('counter',[('procedure.go','// procedure implements','var count int\n\n// procedure implements'),('procedure.go','	p.tracer.Input(word)\n','	p.tracer.Input(word)\n	if count < 100 { count++ }\n')])
m('flag',[('procedure.go','// procedure implements','var flag bool\n\n// procedure implements'),('procedure.go','	p.tracer.Input(word)\n','	p.tracer.Input(word)\n	if !flag && len(word) > 5 { flag = true }\n')])
m('pool ok',[('procedure.go','// procedure implements','var bufPool = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\n// procedure implements'),('procedure.go','"strings"\n','"strings"\n	"sync"\n'),('procedure.go','	var buf bytes.Buffer\n	var jamoBuf bytes.Buffer','	buf := bufPool.Get().(*bytes.Buffer)\n	buf.Reset()\n	defer bufPool.Put(buf)\n	var jamoBuf bytes.Buffer')],0)
m('pool bad',[('procedure.go','// procedure implements','var bufPool = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\n// procedure implements'),('procedure.go','"strings"\n','"strings"\n	"sync"\n'),('procedure.go','	var buf bytes.Buffer\n	var jamoBuf bytes.Buffer','	buf := bufPool.Get().(*bytes.Buffer)\n	defer bufPool.Put(buf)\n	var jamoBuf bytes.Buffer')])
m('tracer cached',[('hangulize.go','	traceFunc        func(Trace)\n}','	traceFunc        func(Trace)\n	p *procedure\n}'),('hangulize.go','&hangulizer{spec, defaultTranslitRegistry, nil}','&hangulizer{spec, defaultTranslitRegistry, nil, nil}'),('hangulize.go','make(translitRegistry), nil}','make(translitRegistry), nil, nil}'),('hangulize.go','	p := newProcedure(h.Spec(), h.Translits(), h.traceFunc)\n	return p','	if h.p == nil { h.p = newProcedure(h.Spec(), h.Translits(), h.traceFunc) }\n	return h.p')])
m('builder reset alias',[('procedure.go','	subwords = append','	subwords = append')],0) if False else None
m('memo sync.Map',[('pkg/hre/pattern.go','	matches := ','	matches := ')],0) if False else None
m('levels cache',[('internal/subword/replace.go','	levels := make([]int, len(word))\n','	if cap(levelBuf) < len(word) {\n		levelBuf = make([]int, len(word))\n	}\n	levels := levelBuf[:len(word)]\n'),('internal/subword/replace.go','// NewReplacer creates','var levelBuf []int\n\n// NewReplacer creates')])
m('pinyin args ok',[('translit/pinyin/pinyin.go','	a := goPinyin.NewArgs()\n','	once.Do(func() { args = goPinyin.NewArgs() })\n	a := args\n'),('translit/pinyin/pinyin.go','type pinyin struct{}','var once sync.Once\nvar args goPinyin.Args\n\ntype pinyin struct{}'),('translit/pinyin/pinyin.go','	"strings"\n','	"strings"\n	"sync"\n')],0)
m('typewriter global',[('translit/furigana/furigana.go','	tokens := k.Tokenize(word)\n','	tokens := k.Tokenize(word)\n	lastWord = word\n'),('translit/furigana/furigana.go','type furigana struct','var lastWord string\n\ntype furigana struct')])
m('usedVars sort',[('pkg/hre/rpattern.go','			fromVar := p.usedVars[varIndex]\n','			fromVar := p.usedVars[varIndex]\n			for k := range fromVar { if k > 0 && fromVar[k] == fromVal0(word, m, varIndex) { fromVar[0], fromVar[k] = fromVar[k], fromVar[0]; break } }\n'),('pkg/hre/rpattern.go','// Letters returns','func fromVal0(w string, m []int, i int) string { return captured(w, m, i+1) }\n\n// Letters returns')])
m('rule tracing in place',[('trace.go','	subwords := append([]subword.Subword{}, r.subwords...)','	subwords := append(r.subwords[:0], r.subwords...)')],0)
m('repls aliased',[('rule.go','	var repls []subword.Replacement\n','	repls := replBuf[:0]\n	defer func() { replBuf = repls }()\n'),('rule.go','// Rule is','var replBuf []subword.Replacement\n\n// Rule is')])
m('translits map to spec',[('procedure.go','		t, ok := p.translits[scheme]\n','		t, ok := p.translits[scheme]\n		p.spec.Lang.Translit = append(p.spec.Lang.Translit[:0], p.spec.Lang.Translit...)\n')])
m('lazy vars with mutex ok',[('pkg/hre/pattern.go','func (p *Pattern) Find(word string, n int) [][]int {\n','func (p *Pattern) Find(word string, n int) [][]int {\n	if word == "" { return nil }\n	lazyMu.Lock()\n	if lazyRe == nil { lazyRe = regexp.MustCompile("x") }\n	lazyMu.Unlock()\n'),('pkg/hre/pattern.go','func pickStartStop','var lazyMu sync.Mutex\nvar lazyRe *regexp.Regexp\n\nfunc pickStartStop'),('pkg/hre/pattern.go','	"sort"\n','	"sort"\n	"sync"\n')],0)
m('atomic counter',[('procedure.go','// procedure implements','var count atomic.Int64\n\n// procedure implements'),('procedure.go','"strings"\n','"strings"\n	"sync/atomic"\n'),('procedure.go','	p.tracer.Input(word)\n','	p.tracer.Input(word)\n	count.Add(1)\n')])
m('syncmap memo',[('procedure.go','// procedure implements','var memo sync.Map\n\n// procedure implements'),('procedure.go','"strings"\n','"strings"\n	"sync"\n'),('procedure.go','	p.tracer.Input(word)\n','	p.tracer.Input(word)\n	memo.LoadOrStore(len(word), word)\n')])
m('registry',[('procedure.go','		var err error\n		word, err','		delete(defaultTranslitRegistry, scheme)\n		var err error\n		word, err')])
M=[x for x in M if x]
