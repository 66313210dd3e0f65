L='pkg/hsl/lexer.go';PA='pkg/hsl/parser.go';ST='pkg/hsl/structures.go';S='spec.go';A='pkg/hre/assertions.go';R='pkg/hre/rpattern.go';H='pkg/hre/pattern.go';W='pkg/hre/width.go';MC='pkg/hre/macro.go';U='pkg/hre/util.go'
C="C09"
M=[
('base',C,[],0),
('quoted no eof',C,[(L,'''		if ch == eof {
			// not terminated
			return Illegal, buf.String()
		}

''','')],1),
('quoted eof only if not escaped',C,[(L,'		if ch == eof {\n			// not','		if ch == eof && !escaped {\n			// not')],0),
('quoted eof after escaped',C,[(L,'''		if ch == eof {
			// not terminated
			return Illegal, buf.String()
		}

		if escaped {
			// Only quotes and backslashes need to be escaped.
			if ch != '"' && ch != '\\\\' {
				buf.WriteRune('\\\\')
			}
			buf.WriteRune(ch)
			escaped = false
			continue
		}
''','''		if escaped {
			// Only quotes and backslashes need to be escaped.
			if ch != '"' && ch != '\\\\' {
				buf.WriteRune('\\\\')
			}
			buf.WriteRune(ch)
			escaped = false
			continue
		}

		if ch == eof {
			// not terminated
			return Illegal, buf.String()
		}
''')],0),
('isSpace narrowed',C,[(L,"return ch != '\\n' && unicode.IsSpace(ch)","return ch == ' ' || ch == '\\t'")],1),
('readWhile no eof',C,[(L,'ch != eof && test(ch)','test(ch)')],0),
('readWhile no eof & isInLine',C,[(L,'ch != eof && test(ch)','test(ch)'),(L,"ch != '\\n' && ch != eof","ch != '\\n'")],1),
('comment loop no break',C,[(L,"		if ch != '#' {\n			l.unread()\n			break\n		}","		if ch != '#' && ch != eof {\n			l.unread()\n			break\n		}")],1),
('unread at eof rereads',C,[(L,"	l.unread()\n\n	return buf.String()","	l.r.UnreadRune()\n	l.err = nil\n\n	return buf.String()")],0),
('parse EOF not break',C,[(PA,'''		} else if tok == EOF {
			break
		} else if tok == Comment {
			continue''','''		} else if tok == EOF && lastString == "" {
			break
		} else if tok == Comment {
			continue''')],1),
('values EOF',C,[(PA,'''		} else if tok == EOF {
			break
		} else if tok == Comment {
			// A''','''		} else if tok == EOF && len(values) > 0 {
			break
		} else if tok == Comment {
			// A''')],1),
('scanString no letters',C,[(L,"	return ch == '_' || unicode.IsLetter(ch)","	return ch == '_' || ch == '$' || unicode.IsLetter(ch)"),(L,'return isInitialLetter(ch) || unicode.IsDigit(ch)',"return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch)")],1),
('scanString refactor',C,[(L,'return isInitialLetter(ch) || unicode.IsDigit(ch)',"return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch)")],0),
('arrow unread first',C,[(L,"	first := l.read()\n	second := l.read()\n\n	if first != '-' || second != '>' {\n		l.unread()\n		return Illegal, string(first)","	first := l.read()\n	second := l.read()\n\n	if first != '-' || second != '>' {\n		l.unread()\n		return Newline, string(first)")],0),
('quote panic reachable',C,[(L,"	if ch == '\"' {\n		l.unread()","	if ch == '\"' || ch == '\\'' {\n		l.unread()")],1),
('test right[0]',C,[(S,'''			if len(right) == 0 {
				return nil, errors.Errorf("no result for the test: %#v", word)
			}
''','')],1),
('rules right[0]',C,[(S,'if len(right) == 0 {\n			return nil, errors.Errorf("%s has','if right == nil {\n			return nil, errors.Errorf("%s has')],1),
('codes',C,[(S,'len(_codes) != 2','len(_codes) > 2')],1),
('codes1',C,[(S,'len(_codes) != 2','len(_codes) < 2')],0),
('assert dict',C,[(S,'''	dict, ok := sec.(*hsl.DictSection)
	if !ok {
		return nil, errors.Errorf("%s must be a dictionary section", name)
	}
	return dict, nil''','''	dict := sec.(*hsl.DictSection)
	return dict, nil''')],1),
('one',C,[(ST,'''	if len(right) == 0 {
		return ""
	}
''','')],1),
('injective',C,[(ST,'if len(right) != 1 {','if len(right) > 1 {')],1),
('newLanguage one',C,[(S,'		Script:   dict.One("script"),','		Script:   dict.All("script")[0],')],1),
('macro fixpoint',C,[(MC,'	return rep.Replace(expr)','''	for {
		next := rep.Replace(expr)
		if next == expr {
			return expr
		}
		expr = next
	}''')],1),
('macro mustcompile',C,[(H,'''	re, err := regexp.Compile(reExpr)
	if err != nil {
		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
	}
''','''	re := regexp.MustCompile(reExpr)
''')],1),
('lookexpr[1:] no prefix',C,[(A,'if lookExpr == `` {\n		return ``, ``, 0, true\n	}\n',''),(A,'isNeg := strings.HasPrefix(lookExpr, `~`)',"isNeg := lookExpr[0] == '~'; _ = strings.TrimPrefix")],1),
('lookexpr[1:] trim',C,[(A,'negExpr = fmt.Sprintf(format, lookExpr[1:])','negExpr = fmt.Sprintf(format, strings.TrimPrefix(lookExpr, `~`))')],0),
('lookahead not always',C,[(A,'		( \\$* )\n\n	--- end of string\n		$\n','		( \\$+ )\n\n	--- end of string\n		$\n')],1),
('lookahead group 3',C,[(A,'edgeExpr := captured(posExpr, m, 2)\n	lookExpr := captured(posExpr, m, 1)','edgeExpr := captured(posExpr, m, 3)\n	lookExpr := captured(posExpr, m, 1)')],1),
('substr n',C,[(U,'''	if stop > n {
		stop = n
	}
''','')],0),
('substr -1 start',C,[(U,'''	if start < 0 || stop < 0 {
		return ""
	}
''','')],1),
('width no default re.Sub',C,[(W,'return RegexpMaxWidth(re.Sub0[0])\n\n	case syntax.OpStar','return RegexpMaxWidth(re)\n\n	case syntax.OpStar')],1),
('width parse panics',C,[(A,'''			re, err := syntax.Parse(negExpr, syntax.Perl)
			if err != nil {
				// NewPattern will report that it cannot be compiled.
				return ``, negExpr, 0, true
			}
''','''			re, err := syntax.Parse(negExpr, syntax.Perl)
			if err != nil {
				panic(err)
			}
''')],1),
('width parse ignored',C,[(A,'''			re, err := syntax.Parse(negExpr, syntax.Perl)
			if err != nil {
				// NewPattern will report that it cannot be compiled.
				return ``, negExpr, 0, true
			}
''','''			re, _ := syntax.Parse(negExpr, syntax.Perl)
''')],1),
('script nil',C,[(S,'''	if !ok {
		return nil, errors.Errorf("script not found: %s", lang.Script)
	}
	puncts := collectPuncts(rewrite, transcribe)''','''	_ = ok
	_ = script.Is(0)
	puncts := collectPuncts(rewrite, transcribe)''')],1),
('odd args',C,[(S,'args = append(args, pair[0], pair[1])','if pair[1] == "" {\n			args = append(args, pair[0])\n			continue\n		}\n		args = append(args, pair[0], pair[1])')],1),
('refactor replacer index',C,[(S,'''	args := make([]string, 0, len(pairs)*2)
	for _, pair := range pairs {
		args = append(args, pair[0], pair[1])
	}
''','''	args := make([]string, 2*len(pairs))
	for i := range pairs {
		args[2*i], args[2*i+1] = pairs[i][0], pairs[i][1]
	}
''')],0),
('rules append',C,[(S,'	rules := make([]Rule, len(pairs))\n','	rules := make([]Rule, 0, len(pairs))\n'),(S,'rules[i] = Rule{i, from, to}','rules = append(rules, Rule{i, from, to})')],0),
('rules off by one',C,[(S,'	rules := make([]Rule, len(pairs))\n','	rules := make([]Rule, len(pairs)+1)\n'),(S,'rules[i] = Rule{i, from, to}','rules[i+2] = Rule{i, from, to}')],1),
('dict nil map',C,[(ST,'return &DictSection{make(map[string]Pair), liner{line}}','return &DictSection{liner: liner{line}}')],1),
('rpattern last',C,[(R,'	plainText := _expr[offset:]\n	if plainText','	plainText := _expr[offset:]\n	for len(plainText) > 0 && plainText[len(plainText)-1] == \' \' {\n		plainText = plainText[:len(plainText)-1]\n	}\n	if plainText')],0),
('rpattern last bug',C,[(R,'	plainText := _expr[offset:]\n	if plainText','	plainText := _expr[offset:]\n	for plainText[len(plainText)-1] == \' \' {\n		plainText = plainText[:len(plainText)-1]\n	}\n	if plainText')],1),
('rpattern parts last',C,[(R,'	// Collect letters in the regexp.\n','	if parts[0].lit == "" {\n		parts = parts[1:]\n	}\n	// Collect letters in the regexp.\n')],1),
('scan switch refactor',C,[(L,"""	if ch == eof {
		return EOF, ""
	}
	if ch == '\\n' {
		return Newline, "\\n"
	}
""","""	switch ch {
	case eof:
		return EOF, ""
	case '\\n':
		return Newline, "\\n"
	}
""")],0),
('peek refactor',C,[(L,"""// readWhile reads""","""func (l *lexer) peek() rune {
	ch := l.read()
	l.unread()
	return ch
}

// readWhile reads"""),(L,"""	for ch := l.read(); ch != eof && test(ch); ch = l.read() {
		buf.WriteRune(ch)
	}
	l.unread()
""","""	for {
		ch := l.read()
		if ch == eof || !test(ch) {
			l.unread()
			break
		}
		buf.WriteRune(ch)
	}
"""),(L,"	if ch != '\"' {\n		panic","	if ch != '\"' && l.peek() != '\"' {\n		panic")],0),
('peek loop bug',C,[(L,"""// readWhile reads""","""func (l *lexer) peek() rune {
	ch := l.read()
	l.unread()
	return ch
}

// readWhile reads"""),(L,"""		// Read until visiting a sharp.
		l.readWhile(isSpace)
""","""		// Read until visiting a sharp.
		for l.peek() != '#' && l.peek() != '\\n' {
			l.readWhile(isSpace)
		}
""")],1),
('newline skip loop',C,[(PA,'''		// There is a more value.
		if tok == Comma {
			continue
		}
''','''		// There is a more value.
		if tok == Comma {
			for tok != String {
				tok, lit, _ = p.scan()
			}
			values = append(values, lit)
			continue
		}
''')],1),
('newline skip loop good',C,[(PA,'''		// There is a more value.
		if tok == Comma {
			continue
		}
''','''		// There is a more value.
		if tok == Comma {
			for tok != String && tok != EOF {
				tok, lit, _ = p.scan()
			}
			continue
		}
''')],0),
]
