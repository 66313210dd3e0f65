A='''	if _, ok := r[scheme]; ok {
		// already exists
		return false
	}
'''
M=[
('overwrite','C06',[('translit.go',A,'''	if old, ok := r[scheme]; ok && old == t {
		return false
	}
''')],1),
('ret','C06',[('translit.go',A,'''	if old, ok := r[scheme]; ok {
		return old == t
	}
''')],1),
('window','C06',[('translit.go','	translitMu.Lock()\n	defer translitMu.Unlock()\n\n	if _, ok := r[scheme]; ok {\n		// already exists\n		return false\n	}\n','	translitMu.RLock()\n	_, ok := r[scheme]\n	translitMu.RUnlock()\n	if ok {\n		return false\n	}\n	translitMu.Lock()\n	defer translitMu.Unlock()\n')],1),
('newshare','C06',[('hangulize.go','make(translitRegistry), nil}','translitRegistry(defaultTranslitRegistry.Detach()), nil}')],1),
('newdef','C06',[('hangulize.go','make(translitRegistry), nil}','defaultTranslitRegistry, nil}')],1),
('detach','C06',[('translit.go','	for m, t := range r {\n','	for m, t := range r {\n		if m == "" {\n			continue\n		}\n')],1),
('detach2','C06',[('translit.go','		copied[m] = t\n','		copied[t.Scheme()] = t\n_ = m\n')],1),
('nocopy','C06',[('hangulize.go','return h.translitRegistry.Detach()','return h.translitRegistry')],1),
('rm','C06',[('translit.go','		delete(r, scheme)\n','		if len(r) > 1 {\n			delete(r, scheme)\n		}\n')],1),
('rmboth','C06',[('hangulize.go','	return h.translitRegistry.Remove(scheme)','	return h.translitRegistry.Remove(scheme) || UnuseTranslit(scheme)')],1),
('fallback','C06',[('hangulize.go','	return h.translitRegistry.Add(t)','	if _, ok := defaultTranslitRegistry.Detach()[t.Scheme()]; ok {\n		return false\n	}\n	return h.translitRegistry.Add(t)')],1),
('perspec','C06',[('hangulize.go','	return &hangulizer{spec, make(translitRegistry), nil}','	r, ok := regs[spec]\n	if !ok {\n		r = make(translitRegistry)\n		regs[spec] = r\n	}\n	return &hangulizer{spec, r, nil}'),('hangulize.go','// New creates','var regs = map[*Spec]translitRegistry{}\n// New creates')],1),
('clone','C06',[('translit.go','	copied := make(map[string]Translit, len(r))\n	for m, t := range r {\n		copied[m] = t\n	}\n	return copied','	return maps.Clone(r)'),('translit.go','import "sync"','import (\n	"maps"\n	"sync"\n)')],0),
('helper','C06',[('translit.go',A,'	if r.has(scheme) {\n		return false\n	}\n'),('translit.go','// Add reg','func (r translitRegistry) has(k string) bool {\n	_, ok := r[k]\n	return ok\n}\n\n// Add reg'),('translit.go','	_, ok := r[scheme]\n	if ok {\n		delete(r, scheme)\n	}\n	return ok','	ok := r.has(scheme)\n	delete(r, scheme)\n	return ok')],0),
('nonil','C06',[('translit.go',A,'	if r[scheme] != nil {\n		return false\n	}\n')],0),
('keys','C06',[('translit.go','	for m, t := range r {\n		copied[m] = t\n','	for m := range r {\n		copied[m] = r[m]\n')],0),
]
