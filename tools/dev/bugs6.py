B=[]
def b(name,checks,*edits): B.append((name,checks,list(edits)))
P='pkg/hsl/parser.go';L='pkg/hsl/lexer.go';S='pkg/hsl/structures.go';Q='spec.go'
b('k: empty value dropped','C27',(P,"			values = append(values, lit)","			if lit != \"\" {\n				values = append(values, lit)\n			}"))
b('k: dup value dropped','C27',(P,"			values = append(values, lit)","			if len(values) == 0 || values[len(values)-1] != lit {\n				values = append(values, lit)\n			}"))
b('k: values capped','C27',(P,"			values = append(values, lit)","			if len(values) < 16 {\n				values = append(values, lit)\n			}"))
b('k: pair w/o value skipped','C27',(P,"			var section Section\n","			if len(values) == 0 {\n				continue\n			}\n\n			var section Section\n"))
b('k: section empty left','C27',(P,"			var section Section\n","			if lastString == \"\" {\n				continue\n			}\n\n			var section Section\n"))
b('k: key kept once','C27',(P,"				lastString = lit\n			continue","				lastString = lit\n			continue")) if False else None
b('k: last string empty kept','C27',(P,"			lastString = lit\n","			if lit != \"\" {\n				lastString = lit\n			}\n"))
b('k: section same name','C27',(P,"			sectionName = lastString\n","			if _, ok := hsl[lastString]; !ok {\n				sectionName = lastString\n			}\n"))
b('k: list pair nil right','C27',(S,"	s.pairs = append(s.pairs, Pair{l, r, liner{line}})","	if len(r) > 0 {\n		s.pairs = append(s.pairs, Pair{l, r, liner{line}})\n	}"))
b('k: list pair same as last','C27',(S,"	s.pairs = append(s.pairs, Pair{l, r, liner{line}})","	if n := len(s.pairs); n > 0 && s.pairs[n-1].l == l && len(r) == 1 && len(s.pairs[n-1].r) == 1 && s.pairs[n-1].r[0] == r[0] {\n		return nil\n	}\n	s.pairs = append(s.pairs, Pair{l, r, liner{line}})"))
b('k: dict same again','C27',(S,'		return fmt.Errorf("left of pair duplicated: %#v", l)','		if len(r) == 0 {\n			return nil\n		}\n		return fmt.Errorf("left of pair duplicated: %#v", l)'))
b('k: map skips empty','C27',(S,"		m[pair.Left()] = pair.Right()","		if len(pair.Right()) == 0 {\n			continue\n		}\n		m[pair.Left()] = pair.Right()"))
b('k: injective skips','C27',(S,"		if len(right) != 1 {","		if len(right) == 0 {\n			continue\n		}\n		if len(right) != 1 {"))
b('k: test skips','C27',(Q,"			word := pair.Left()\n","			word := pair.Left()\n			if word == \"\" {\n				continue\n			}\n"))
b('k: rules skip','C27',(Q,"	for i, pair := range pairs {\n		from, err","	for i, pair := range pairs {\n		if pair.Left() == \"\" {\n			continue\n		}\n		from, err"))
b('k: rules dedupe','C27',(Q,"	for i, pair := range pairs {\n		from, err","	seen := map[string]bool{}\n	for i, pair := range pairs {\n		if seen[pair.Left()] {\n			continue\n		}\n		seen[pair.Left()] = true\n		from, err"))
b('k: rules stop','C27',(Q,"	for i, pair := range pairs {\n		from, err","	for i, pair := range pairs {\n		if pair.Left() == \"\" {\n			break\n		}\n		from, err"))
b('k: norm skips empty to','C27',(Q,"		for _, from := range froms {\n","		for _, from := range froms {\n			if from == to {\n				continue\n			}\n"))
b('k: norm skips key','C27',(Q,"		for _, from := range froms {\n","		if len(to) > 4 {\n			continue\n		}\n		for _, from := range froms {\n"))
b('k: rules rest','C27',(Q,"	rules := make([]Rule, len(pairs))\n","	if n := len(pairs); n > 0 && len(pairs[n-1].Right()) == 0 {\n		pairs = pairs[:n-1]\n	}\n	rules := make([]Rule, len(pairs))\n"))
b('k: lex escape quote','C27',(L,"			buf.WriteRune(ch)\n			escaped = false","			if ch != '\"' {\n				buf.WriteRune(ch)\n			}\n			escaped = false"))
b('k: lex crlf','C27',(L,"			buf.WriteRune(ch)\n			escaped = false","			if ch != '\\r' {\n				buf.WriteRune(ch)\n			}\n			escaped = false"))
b('k: lex crlf2','C27',(L,"		buf.WriteRune(ch)\n	}\n\n	return String, buf","		if ch == '\\r' {\n			continue\n		}\n		buf.WriteRune(ch)\n	}\n\n	return String, buf"))
b('k: lex trim','C27',(L,"	return String, buf.String()","	return String, strings.TrimSpace(buf.String())"))
b('k: lex backslash','C27',(L,"			escaped = true\n			continue","			escaped = true\n			continue"),(L,"			if ch != '\"' && ch != '\\\\' {\n				buf.WriteRune('\\\\')\n			}","			if ch != '\"' && ch != '\\\\' && ch != 'x' {\n				buf.WriteRune('\\\\')\n			}"))
b('k: lex underscore','C27',(L,"	return String, l.readWhile(isLetter)","	return String, strings.TrimRight(l.readWhile(isLetter), \"_\")"))
b('k: lex no unread','C27',(L,"		l.unread()\n		return l.scanString()","		if ch != '_' {\n			l.unread()\n		}\n		return l.scanString()"))
b('k: eof in values','C27',(P,"		} else if tok == EOF {\n			break\n		} else if tok == Comment {\n			// A","		} else if tok == EOF {\n			return nil, nil\n		} else if tok == Comment {\n			// A"))
b('k: comment eats pair','C27',(P,"				return nil, errors.New(\"pair found not in section\")","				continue"))
b('k: colon in values','C27',(P,"		// There is a more value.\n		if tok == Comma {","		// There is a more value.\n		if tok == Colon {\n			values = values[:0]\n		}\n		if tok == Comma {"))
b('k: parse ends','C27',(P,"		if tok == Colon {\n			sectionName","		if tok == Colon {\n			if lastString == \"end\" {\n				break\n			}\n			sectionName"))
b('k: One last','C27',(S,"func (s DictSection) Map() map","func (s DictSection) Map() map"))
B=[x for x in B if x]
