R='pkg/hre/rpattern.go';H='pkg/hre/pattern.go';U='pkg/hre/util.go';RU='rule.go'
C='C21'
M=[
('base',C,[],0),
('no len check usedvars',C,[(R,'''			if varIndex > len(p.usedVars)-1 {
				err := errors.New("mapped vars have different length")
				return "", err
			}
''','')],1),
('usedvars off by one',C,[(R,'varIndex > len(p.usedVars)-1','varIndex > len(p.usedVars)')],1),
('no m check',C,[(R,'''			if len(m) < (varIndex+2)*2 {
				return "", errors.New("mapped var not captured")
			}
''','')],1),
('m check off',C,[(R,'len(m) < (varIndex+2)*2','len(m) < (varIndex+1)*2')],1),
('m check refactor',C,[(R,'len(m) < (varIndex+2)*2','len(m)/2 < varIndex+2')],0),
('m check refactor2',C,[(R,'len(m) < (varIndex+2)*2','2*varIndex+4 > len(m)')],0),
('no empty',C,[(R,'''			if len(part.usedVar) == 0 {
				return "", errors.Errorf("mapped var %s is empty", part.lit)
			}
''','')],1),
('empty nil',C,[(R,'if len(part.usedVar) == 0 {','if part.usedVar == nil {')],1),
('no -1',C,[(R,'''			if i == -1 {
				return "", errors.Errorf("%#v is not in mapped var", fromVal)
			}
''','')],1),
('-1 refactor',C,[(R,'if i == -1 {','if i < 0 {')],0),
('no mod',C,[(R,'			i = i % len(part.usedVar)\n','')],1),
('mod if',C,[(R,'			i = i % len(part.usedVar)\n','			if i >= len(part.usedVar) {\n				i = i % len(part.usedVar)\n			}\n')],0),
('mod minus',C,[(R,'			i = i % len(part.usedVar)\n','			if i >= len(part.usedVar) {\n				i -= len(part.usedVar)\n			}\n')],1),
('varindex not inc',C,[(R,'			varIndex++\n','')],0),
('varindex reset',C,[(R,'			varIndex++\n','			varIndex--\n')],1),
('substr neg',C,[(U,'if start < 0 || stop < 0 {','if start < 0 {')],0),
('substr bound',C,[(U,'	if start >= n {\n		return ""\n	}\n	if stop > n {\n		stop = n\n	}\n','')],1),
('substr neg start',C,[(U,'	if start < 0 || stop < 0 {\n		return ""\n	}\n','')],1),
('captured direct',C,[(U,'return substr(s, m[i], m[i+1])','return s[m[i]:m[i+1]]')],1),
('must err panic',C,[(R,'return "", errors.Errorf("%#v is not in mapped var", fromVal)','panic(fromVal)')],1),
('replace err ignored',C,[(H,'''		if err == nil {
			buf.WriteString(repl)
		} else {
			buf.WriteString(word[start:stop])
		}
''','''		if err != nil {
			repl = ""
		}
		buf.WriteString(repl)
''')],1),
('replace err junk',C,[(H,'''		if err == nil {
			buf.WriteString(repl)
		} else {
			buf.WriteString(word[start:stop])
		}
''','''		_ = err
		buf.WriteString(repl)
''')],1),
('replace err dropped',C,[(H,'''		} else {
			buf.WriteString(word[start:stop])
		}
''','''		}
''')],1),
('replace err skip early ok',C,[(H,'''		start, stop := m[0], m[1]
		buf.WriteString(word[cur:start])

		repl, err := rpat.Interpolate(p, word, m)

		if err == nil {
			buf.WriteString(repl)
		} else {
			buf.WriteString(word[start:stop])
		}

		cur = stop
''','''		repl, err := rpat.Interpolate(p, word, m)
		if err != nil {
			// keep the matched text
			continue
		}

		start, stop := m[0], m[1]
		buf.WriteString(word[cur:start])
		buf.WriteString(repl)
		cur = stop
''')],0),
('replace err skip bug',C,[(H,'''		repl, err := rpat.Interpolate(p, word, m)

		if err == nil {
			buf.WriteString(repl)
		} else {
			buf.WriteString(word[start:stop])
		}
''','''		repl, err := rpat.Interpolate(p, word, m)
		if err != nil {
			continue
		}
		buf.WriteString(repl)
''')],1),
('replace err cur=stop then continue',C,[(H,'''		if err == nil {
			buf.WriteString(repl)
		} else {
			buf.WriteString(word[start:stop])
		}

		cur = stop
''','''		cur = stop
		if err != nil {
			buf.WriteString(word[m[0]:m[1]])
			continue
		}
		buf.WriteString(repl)
''')],0),
('rule err not skipped',C,[(RU,'''			// FIXME(sublee): Shouldn't it throw an error?
			continue
''','''			repl = ""
''')],1),
('rule err junk',C,[(RU,'''			// FIXME(sublee): Shouldn't it throw an error?
			continue
''','''			fmt.Print()
''')],1),
('rule err matched',C,[(RU,'''			// FIXME(sublee): Shouldn't it throw an error?
			continue
''','''			repl = word[start:stop]
''')],0),
('rule helper',C,[(RU,'''		repl, err := r.To.Interpolate(r.From, word, m)

		if err != nil {
			// FIXME(sublee): Shouldn't it throw an error?
			continue
		}

		repls = append(repls, subword.NewReplacement(start, stop, repl))
''','''		if repl, err := r.To.Interpolate(r.From, word, m); err == nil {
			repls = append(repls, subword.Replacement{Start: start, Stop: stop, Word: repl})
		}
''')],0),
('rule err break on partial',C,[(RU,'''			// FIXME(sublee): Shouldn't it throw an error?
			continue
''','''			repls = append(repls, subword.Replacement{Start: start, Stop: stop, Word: "?"})
			continue
''')],1),
('interp helper',C,[(R,'''			fromVal := captured(word, m, varIndex+1)

			// Find index of the matched character in the var.
			i := indexOf(fromVal, fromVar)
			if i == -1 {
				return "", errors.Errorf("%#v is not in mapped var", fromVal)
			}
			i = i % len(part.usedVar)

			// Choose a replacement character at the same index.
			toVal := part.usedVar[i]
''','''			toVal, err := mapped(captured(word, m, varIndex+1), fromVar, part.usedVar)
			if err != nil {
				return "", err
			}
'''),(R,'// Interpolate determines','''func mapped(val string, from, to []string) (string, error) {
	i := indexOf(val, from)
	if i == -1 {
		return "", errors.Errorf("%#v is not in mapped var", val)
	}
	return to[i%len(to)], nil
}

// Interpolate determines''')],0),
('indexof while',C,[(U,'''	for i, _val := range vals {
		if _val == val {
			return i
		}
	}
	return -1''','''	i := 0
	for i < len(vals) && vals[i] != val {
		i++
	}
	if i == len(vals) {
		return -1
	}
	return i''')],0),
('indexof while bug',C,[(U,'''	for i, _val := range vals {
		if _val == val {
			return i
		}
	}
	return -1''','''	i := 0
	for vals[i] != val {
		i++
		if i == len(vals) {
			return -1
		}
	}
	return i''')],1),
]
