B=[]
def b(name,checks,*edits): B.append((name,checks,list(edits)))
PT='pkg/hre/pattern.go';Q='spec.go';RPA='pkg/hre/rpattern.go';PR='procedure.go';SW='internal/subword/'
b('b: pattern cache','C04 C27 C18 C03',(PT,'	if len(expr) == 0 {\n		return nil, errors.New("empty pattern not allowed")\n	}\n','	if len(expr) == 0 {\n		return nil, errors.New("empty pattern not allowed")\n	}\n	if p, ok := patterns.Load(expr); ok && len(macros) == 0 {\n		return p.(*Pattern), nil\n	}\n'),(PT,'	return p, nil\n}\n\n// ---','	patterns.Store(expr, p)\n	return p, nil\n}\n\nvar patterns sync.Map\n\n// ---'),(PT,'	"sort"\n','	"sort"\n	"sync"\n'))
b('b: spec memo','C04 C27 C18 C03',(Q,'	spec := Spec{\n','	parsedMu.Lock()\n	defer parsedMu.Unlock()\n	if s, ok := parsed[lang.ID]; ok && len(s.Source) == len(source) {\n		return s, nil\n	}\n	spec := Spec{\n'),(Q,'	return &spec, nil\n}\n\n// dict','	parsed[lang.ID] = &spec\n	return &spec, nil\n}\n\nvar (\n	parsedMu sync.Mutex\n	parsed   = map[string]*Spec{}\n)\n\n// dict'),(Q,'	"sort"\n','	"sort"\n	"sync"\n'))
b('b: negA cut','C12',(PT,'			if p.negA.MatchString(word[stop:]) {','			ahead := word[stop:]\n			if p.negAWidth != -1 && len(ahead) > p.negAWidth+1 {\n				ahead = ahead[:p.negAWidth+1]\n			}\n			if p.negA.MatchString(ahead) {'))
b('b: neg retry','C12 C09 C11',(PT,'			if p.negA.MatchString(word[stop:]) {\n','			if p.negA.MatchString(word[stop:]) {\n				offset = start + 1\n'))
b('b: replace cur','C11',(PT,'		if err == nil {\n			buf.WriteString(repl)\n		} else {\n			buf.WriteString(word[start:stop])\n		}\n','		if err != nil {\n			buf.WriteString(word[start:stop])\n			continue\n		}\n		buf.WriteString(repl)\n'))
b('b: replace empty','C21 C11',(PT,'		if err == nil {\n			buf','		if err == nil && (repl != "" || n < 0) {\n			buf'))
b('b: interp memo on pattern','C04 C01',(RPA,'	var buf bytes.Buffer\n','	var buf bytes.Buffer\n	_ = p\n'))
b('b: test pair word trimmed','C27',(Q,'			exm := [2]string{word, right[0]}','			exm := [2]string{strings.TrimSpace(word), right[0]}'))
b('b: macros first','C27',(Q,'		macros, err = dict.Injective()\n','		macros, err = dict.Injective()\n		for name, m := range macros {\n			if m == name {\n				delete(macros, name)\n			}\n		}\n'))
b('b: vars delete','C27 C03',(Q,'		vars = dict.Map()\n','		vars = dict.Map()\n		for name, v := range vars {\n			if len(v) == 0 {\n				delete(vars, name)\n			}\n		}\n'))
b('b: pairs sort','C27',(Q,'		rewritePairs = list.Pairs()\n','		rewritePairs = list.Pairs()\n		sort.SliceStable(rewritePairs, func(i, j int) bool {\n			return len(rewritePairs[i].Left()) > len(rewritePairs[j].Left()) && rewritePairs[j].Left() == ""\n		})\n'))
b('b: rule pattern trimmed','C27',(Q,'hre.NewPattern(pair.Left(), macros','hre.NewPattern(strings.TrimSpace(pair.Left()), macros'))
b('b: rule to lower','C27',(Q,'hre.NewRPattern(right[0], macros','hre.NewRPattern(strings.TrimRight(right[0], " "), macros'))
b('b: lang trim','C27',(Q,'		ID:       dict.One("id"),','		ID:       strings.ToLower(dict.One("id")),'))
b('b: rule id','C27 C20',(Q,'		rules[i] = Rule{i, from, to}','		id := i\n		if id > 4095 {\n			id = 4095\n		}\n		rules[i] = Rule{id, from, to}'))
b('b: last test','C27',(Q,'			exm := [2]string{word, right[0]}','			exm := [2]string{word, right[len(right)-1]}'))
b('b: norm lower','C27',(Q,'			pairs = append(pairs, [2]string{from, to})','			pairs = append(pairs, [2]string{strings.ToLower(from), to})'))
