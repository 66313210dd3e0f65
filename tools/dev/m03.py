M=[]
def m(n,edits,exp=1): M.append((n,'C03',edits,exp))
MAC='pkg/hre/macro.go'; SP='spec.go'; PAT='pkg/hre/pattern.go'; ST='pkg/hsl/structures.go'; MAN='cmd/manifest.json/main.go'; COV='cmd/hangulize/cover.go'; TR='trace.go'; PR='procedure.go'; CYR='translit/cyrillic/cyrillic.go'
SRT='	sort.Sort(sort.Reverse(sort.StringSlice(srcs)))\n'
m('mac-nosort',[(MAC,SRT,''),(MAC,'"sort"\n','')])
m('mac-len',[(MAC,SRT,'	sort.Slice(srcs, func(i, j int) bool { return len(srcs[i]) > len(srcs[j]) })\n')],0)
m('mac-lentie',[(MAC,SRT,'	sort.Slice(srcs, func(i, j int) bool { if len(srcs[i]) != len(srcs[j]) { return len(srcs[i]) > len(srcs[j]) }; return srcs[i] < srcs[j] })\n')],0)
m('mac-helper',[(MAC,SRT,'	sortDesc(srcs)\n'),(MAC,'// expandMacros','func sortDesc(xs []string) { sort.Strings(xs); for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 { xs[i], xs[j] = xs[j], xs[i] } }\n// expandMacros')],0)
m('mac-keys-helper',[(MAC,'''	srcs := make([]string, 0, len(macros))
	for src := range macros {
		srcs = append(srcs, src)
	}
''','	srcs := keysOf(macros)\n'),(MAC,'// expandMacros','func keysOf(m map[string]string) []string { var ks []string; for k := range m { ks = append(ks, k) }; return ks }\n// expandMacros')],0)
m('mac-index',[(MAC,'''	srcs := make([]string, 0, len(macros))
	for src := range macros {
		srcs = append(srcs, src)
	}
''','	srcs := make([]string, len(macros))\n	n := 0\n	for src := range macros {\n		srcs[n] = src\n		n++\n	}\n')],0)
m('mac-index-nosort',[(MAC,'''	srcs := make([]string, 0, len(macros))
	for src := range macros {
		srcs = append(srcs, src)
	}
''','	srcs := make([]string, len(macros))\n	n := 0\n	for src := range macros {\n		srcs[n] = src\n		n++\n	}\n'),(MAC,SRT,''),(MAC,'"sort"\n','')])
m('mac-condsort',[(MAC,SRT,'	if len(srcs) > 8 {\n	sort.Sort(sort.Reverse(sort.StringSlice(srcs)))\n	}\n')])
m('mac-fold',[(MAC,SRT,'	sort.Slice(srcs, func(i, j int) bool { return strings.ToLower(srcs[i]) > strings.ToLower(srcs[j]) })\n')])
m('mac-direct',[(MAC,'''	srcs := make([]string, 0, len(macros))
	for src := range macros {
		srcs = append(srcs, src)
	}
''',''),(MAC,'	for _, src := range srcs {\n		args = append(args, src, macros[src])','	for src, dst := range macros {\n		args = append(args, src, dst)'),(MAC,SRT,''),(MAC,'"sort"\n',''),(MAC,'''	// The replacer prefers earlier arguments. Put a longer macro before its
	// prefix, regardless of the map iteration order.
''','')])
m('mac-replaceall',[(MAC,'	rep := strings.NewReplacer(args...)\n	return rep.Replace(expr)','	_ = args\n	for src, dst := range macros {\n		expr = strings.ReplaceAll(expr, src, dst)\n	}\n	return expr')])
SLICE='''	sort.Slice(pairs, func(i, j int) bool {
		if pairs[i][0] != pairs[j][0] {
			return pairs[i][0] > pairs[j][0]
		}
		return pairs[i][1] < pairs[j][1]
	})
'''
m('norm-partial',[(SP,SLICE,'	sort.Slice(pairs, func(i, j int) bool { return pairs[i][0] > pairs[j][0] })\n')])
m('norm-stable-partial',[(SP,SLICE,'	sort.SliceStable(pairs, func(i, j int) bool { return len(pairs[i][0]) > len(pairs[j][0]) })\n')])
m('norm-none',[(SP,SLICE,''),(SP,'	"sort"\n','')])
m('norm-letters-last',[(SP,'			normLetters[let] = true\n','			normLetters[let] = len(normLetters) < 1000\n')])
m('map-first',[(ST,'		m[pair.Left()] = pair.Right()','		m[pair.Left()[:1]] = pair.Right()')])
m('inj-direct',[(ST,'	for _, pair := range s.Pairs() {\n		right','	for _, pair := range s.dict {\n		right')])
m('pairs-nosort',[(ST,'	sort.Strings(lefts)\n',''),(ST,'	"sort"\n','')])
m('pairs-by-line',[(ST,'''	lefts := make([]string, 0, len(s.dict))
	for left := range s.dict {
		lefts = append(lefts, left)
	}
	sort.Strings(lefts)

	pairs := make([]Pair, len(lefts))
	for i, left := range lefts {
		pairs[i] = s.dict[left]
	}
''','''	pairs := make([]Pair, 0, len(s.dict))
	for _, p := range s.dict {
		pairs = append(pairs, p)
	}
	sort.Slice(pairs, func(i, j int) bool { return pairs[i].line < pairs[j].line })
''')],0)
m('pairs-by-left',[(ST,'''	lefts := make([]string, 0, len(s.dict))
	for left := range s.dict {
		lefts = append(lefts, left)
	}
	sort.Strings(lefts)

	pairs := make([]Pair, len(lefts))
	for i, left := range lefts {
		pairs[i] = s.dict[left]
	}
''','''	pairs := make([]Pair, 0, len(s.dict))
	for _, p := range s.dict {
		pairs = append(pairs, p)
	}
	sort.Slice(pairs, func(i, j int) bool { return pairs[i].l < pairs[j].l })
''')],0)
m('letters-nosort',[(PAT,'''	sort.Slice(letters, func(i, j int) bool {
		return letters[i] < letters[j]
	})
''',''),(PAT,'	"sort"\n','')])
m('letters-class',[(PAT,'''		return letters[i] < letters[j]
''','''		return letters[i]/256 < letters[j]/256
''')])
m('man-nosort',[(MAN,'	sort.Strings(translits)\n',''),(MAN,'	"sort"\n','')])
m('cov-nosort',[(COV,'	sort.Strings(names)\n',''),(COV,'	"sort"\n','')])
m('cov-first',[(COV,'	for name := range c.names {\n		file','	n := 0\n	for name := range c.names {\n		if n++; n > 100 {\n			break\n		}\n		file')],0)
m('puncts-first',[(SP,'	for to := range normalize {\n		for _, let := range to {\n			normLetters[let] = true','	for to := range normalize {\n		if len(normLetters) > 64 {\n			break\n		}\n		for _, let := range to {\n			normLetters[let] = true')])
m('translit-any',[(PR,'		t, ok := p.translits[scheme]\n','		t, ok := p.translits[scheme]\n		if !ok {\n			for s, c := range p.translits {\n				if strings.HasPrefix(s, scheme) {\n					t, ok = c, true\n					break\n				}\n			}\n		}\n')])
m('translit-scan',[(PR,'		t, ok := p.translits[scheme]\n','		var t Translit\n		ok := false\n		for s, c := range p.translits {\n			if s == scheme {\n				t, ok = c, true\n				break\n			}\n		}\n')],0)
m('translit-last',[(PR,'		t, ok := p.translits[scheme]\n','		t, ok := p.translits[scheme]\n		if !ok {\n			for s, c := range p.translits {\n				if strings.HasPrefix(s, scheme) {\n					t, ok = c, true\n				}\n			}\n		}\n')])
m('err-known',[(PR,'			return word, fmt.Errorf("%w: %s", ErrTranslitNotImported, scheme)','			var known []string\n			for s := range p.translits {\n				known = append(known, s)\n			}\n			return word, fmt.Errorf("%w: %s not in %v", ErrTranslitNotImported, scheme, known)')])
m('err-known-map',[(PR,'			return word, fmt.Errorf("%w: %s", ErrTranslitNotImported, scheme)','			return word, fmt.Errorf("%w: %s not in %v", ErrTranslitNotImported, scheme, p.translits)')],0)
m('err-known-sorted',[(PR,'			return word, fmt.Errorf("%w: %s", ErrTranslitNotImported, scheme)','			var known []string\n			for s := range p.translits {\n				known = append(known, s)\n			}\n			sort.Strings(known)\n			return word, fmt.Errorf("%w: %s not in %v", ErrTranslitNotImported, scheme, known)'),(PR,'	"fmt"\n','	"fmt"\n	"sort"\n')],0)
m('trace-map',[(TR,'''	subwords := append([]subword.Subword{}, r.subwords...)

	for _, rec := range r.records {
''','''	subwords := append([]subword.Subword{}, r.subwords...)

	recs := make(map[int]*subwordsTracerRecord)
	for i, rec := range r.records {
		recs[i] = rec
	}
	for _, rec := range recs {
''')])
m('time',[(TR,'	r.prevWord = t.Word\n','	r.prevWord = t.Word\n	if t.Why == "" {\n		t.Why = time.Now().Format("05")\n	}\n'),(TR,'import (\n','import (\n	"time"\n')])
m('time-log',[(PR,'	p.tracer.Input(word)\n','	t0 := time.Now()\n	defer func() { _ = time.Since(t0) }()\n	p.tracer.Input(word)\n'),(PR,'	"bytes"\n','	"bytes"\n	"time"\n')],0)
m('env',[(PR,'		if ch == \'\\u200B\' {\n','		if ch == \'\\u200B\' && os.Getenv("KEEP") == "" {\n'),(PR,'	"bytes"\n','	"bytes"\n	"os"\n')])
m('par-chan',[(SP,'	rules := make([]Rule, len(pairs))\n','''	rules := make([]Rule, len(pairs))
	errs := make(chan error, len(pairs))
	for _, pair := range pairs {
		go func(pair hsl.Pair) {
			_, err := hre.NewPattern(pair.Left(), macros, vars)
			errs <- err
		}(pair)
	}
	for range pairs {
		if err := <-errs; err != nil {
			return nil, err
		}
	}
''')])
m('par-ok',[(SP,'	rules := make([]Rule, len(pairs))\n','''	rules := make([]Rule, len(pairs))
	errs := make([]error, len(pairs))
	var wg sync.WaitGroup
	for i, pair := range pairs {
		wg.Add(1)
		go func(i int, pair hsl.Pair) {
			defer wg.Done()
			_, errs[i] = hre.NewPattern(pair.Left(), macros, vars)
		}(i, pair)
	}
	wg.Wait()
	for i := range pairs {
		if err := errs[i]; err != nil {
			return nil, err
		}
	}
'''),(SP,'	"strings"\n','	"strings"\n	"sync"\n')],0)
m('par-append',[(SP,'	rules := make([]Rule, len(pairs))\n','''	rules := make([]Rule, len(pairs))
	var first error
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, pair := range pairs {
		wg.Add(1)
		go func(pair hsl.Pair) {
			defer wg.Done()
			_, err := hre.NewPattern(pair.Left(), macros, vars)
			mu.Lock()
			if err != nil && first == nil {
				first = err
			}
			mu.Unlock()
		}(pair)
	}
	wg.Wait()
	if first != nil {
		return nil, first
	}
'''),(SP,'	"strings"\n','	"strings"\n	"sync"\n')])
m('cov-maxname',[(COV,'	var total int\n','	var total int\n	best := ""\n	for name := range c.names {\n		if name > best {\n			best = name\n		}\n	}\n	c.Visit(best)\n')],0)
m('cov-longest',[(COV,'	var total int\n','	var total int\n	best := ""\n	for name := range c.names {\n		if len(name) > len(best) {\n			best = name\n		}\n	}\n	c.Visit(best)\n')])
m('invert',[(SP,'	// custom normalization\n','	inv := make(map[string]string)\n	for to, froms := range normalize {\n		for _, from := range froms {\n			inv[from] = to\n		}\n	}\n	_ = inv\n	// custom normalization\n')])
m('setof',[(SP,'	// custom normalization\n','	inv := make(map[string]bool)\n	for _, froms := range normalize {\n		for _, from := range froms {\n			inv[from] = true\n		}\n	}\n	_ = inv\n	// custom normalization\n')],0)
m('count-reset',[(SP,'	// custom normalization\n','	n := 0\n	for _, froms := range normalize {\n		n += len(froms)\n	}\n	if n > 10000 {\n		return nil, errors.Errorf("too many: %d", n)\n	}\n	// custom normalization\n')],0)
m('vars-check',[(SP,'	// custom normalization\n','	for name, vals := range vars {\n		if len(vals) == 0 {\n			return nil, errors.Errorf("%s is empty", name)\n		}\n	}\n	// custom normalization\n')])
m('vars-check-const',[(SP,'	// custom normalization\n','	for _, vals := range vars {\n		if len(vals) > 1000 {\n			return nil, errors.New("too many values")\n		}\n	}\n	// custom normalization\n')],0)
