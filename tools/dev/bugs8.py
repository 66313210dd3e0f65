B=[]
def b(name,checks,*edits): B.append((name,checks,list(edits)))
TR='translit.go';SP='specs.go';H='hangulize.go';RU='rule.go';T='trace.go';PR='procedure.go';TI='translit/translit.go'
b('a: add same again true','C06',(TR,'	if _, ok := r[scheme]; ok {\n		// already exists\n		return false\n	}','	if old, ok := r[scheme]; ok {\n		// already exists\n		return old == t\n	}'))
b('a: scheme twice','C06 C02',(TR,'	r[scheme] = t\n','	r[t.Scheme()] = t\n'))
b('a: empty scheme refused','C06',(TR,'	if _, ok := r[scheme]; ok {','	if _, ok := r[scheme]; ok || scheme == "" {'))
b('a: shared by spec','C06',(H,'func New(spec *Spec) Hangulizer {\n	return &hangulizer{spec, make(translitRegistry), nil}','var registries sync.Map\n\nfunc New(spec *Spec) Hangulizer {\n	r, _ := registries.LoadOrStore(spec, make(translitRegistry))\n	return &hangulizer{spec, r.(translitRegistry), nil}'),(H,'package hangulize\n','package hangulize\n\nimport "sync"\n'))
b('a: remove returns late','C06 C01',(TR,'	_, ok := r[scheme]\n	if ok {\n		delete(r, scheme)\n	}\n	return ok\n','	n := len(r)\n	delete(r, scheme)\n	return len(r) < n || scheme == ""\n'))
b('a: install precheck','C07',(TI,'	for i, t := range ts {\n		if ok','	have := hangulize.Translits()\n	if len(h) == 1 {\n		have = h[0].Translits()\n	}\n	for _, t := range ts {\n		if _, ok := have[t.Scheme()]; ok {\n			return false\n		}\n	}\n	for i, t := range ts {\n		if i < 0 {\n			unuseTranslit(t.Scheme())\n		}\n		if ok'),(TI,'			for j := 0; j < i; j++ {\n				unuseTranslit(ts[j].Scheme())\n			}\n',''))
b('a: install rollback one','C07',(TI,'			for j := 0; j < i; j++ {\n				unuseTranslit(ts[j].Scheme())\n			}','			if i > 0 {\n				unuseTranslit(ts[i-1].Scheme())\n			}'))
b('a: install fresh ts','C07',(TI,'	for i, t := range ts {\n','	for i, t := range Translits() {\n'))
b('a: record unchanged','C20 C05 C09',(T,'	if len(r.records) < rule.ID+1 {','	if word == r.subwords[i].Word {\n		return\n	}\n\n	if len(r.records) < rule.ID+1 {'),(T,'	for _, rec := range r.records {\n','	for _, rec := range r.records {\n		if rec == nil {\n			continue\n		}\n'))
b('a: record rule by id','C20',(T,'		if dirty {\n','		if dirty && (rec.rule.ID == 0 || len(r.records) < 1000) {\n'))
b('a: hangulize error word','C08',(PR,'			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)','			return "", fmt.Errorf("%w: %s", ErrTranslit, scheme)'))
b('a: no translit','C08 C16',(PR,'func (p procedure) transliterate','func (p procedure) transliterate'))
b('a: replace limit','C16 C11',(RU,'	for _, m := range r.From.Find(word, -1) {\n','	for _, m := range r.From.Find(word, len(word)/4+4) {\n'))
b('a: skip same repl','C11 C20',(RU,'		repls = append(repls, subword','		if repl == word[start:stop] {\n			continue\n		}\n		repls = append(repls, subword'))
b('a: unload evicts','C18',(SP,'	delete(specs, lang)','	for name := range specs {\n		if strings.EqualFold(name, lang) {\n			delete(specs, name)\n		}\n	}'))
b('a: cache before parse','C18 C01',(SP,'	// Cache it.\n	specs[lang] = spec\n','	// Cache it.\n	specs[spec.Lang.ID] = spec\n'))
b('a: list cached','C18 C03 C01',(SP,'func ListLangs() []string {\n','var langsOnce sync.Once\nvar langsAll []string\n\nfunc ListLangs() []string {\n	langsOnce.Do(func() { langsAll = listLangs() })\n	return langsAll\n}\n\nfunc listLangs() []string {\n'))
b('a: load unlock parse','C01 C02 C18',(SP,'	spec, err = ParseSpec','	specsMu.Unlock()\n	spec, err = ParseSpec'),(SP,'	// Cache it.\n','	// Cache it.\n	specsMu.Lock()\n'))
b('a: source by reader','C27',('spec.go','	h, err := hsl.Parse(tee)\n','	h, err := hsl.Parse(io.LimitReader(tee, 1<<20))\n'))
b('a: translit unknown skip','C08 C16',(PR,'ErrTranslitNotImported','ErrTranslitNotImported'))
