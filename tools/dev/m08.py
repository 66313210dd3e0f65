P='procedure.go';L='pkg/hsl/lexer.go';S='spec.go';SS='specs.go';H='pkg/hre/pattern.go'
M=[
('base',"C08",[],0),
('translit wrong sentinel',"C08",[(P,'ErrTranslit, scheme)\n\t\t}\n\n\t\tp.tracer','ErrTranslitNotImported, scheme)\n\t\t}\n\n\t\tp.tracer')],1),
('translit %v',"C08",[(P,'fmt.Errorf("%w: %s", ErrTranslit, scheme)','fmt.Errorf("%v: %s", ErrTranslit, scheme)')],1),
('translit missing skip',"C08",[(P,'return word, fmt.Errorf("%w: %s", ErrTranslitNotImported, scheme)','continue')],1),
('translit err empty only',"C08",[(P,'if err != nil {\n\t\t\treturn word, fmt.Errorf("%w: %s", ErrTranslit','if err != nil && word == "" {\n\t\t\treturn word, fmt.Errorf("%w: %s", ErrTranslit')],1),
('lexer Err eof conf',"C08",[(L,'if l.err == io.EOF {','if l.err == io.EOF || l.line > 1 {')],1),
('lexer err overwritten',"C08",[(L,'		l.err = err\n		return eof','		l.err = io.EOF\n		return eof')],1),
('parser err check at EOF only',"C08",[('pkg/hsl/parser.go','''		if err := p.lexer.Err(); err != nil {
			return nil, fmt.Errorf("parse values: %w", err)
		}
''','')],0),
('both checks gone',"C08",[('pkg/hsl/parser.go','''		if err := p.lexer.Err(); err != nil {
			return nil, fmt.Errorf("parse: %w", err)
		}
''','')],1),
('eof reported',"C08",[(L,'''	if l.err == io.EOF {
		return nil
	}
	return l.err''','''	return l.err''')],1),
('wrap wrong err',"C08",[(H,'''			err = errors.Wrapf(err, "failed to compile pattern: %#v", expr)
			return nil, err
		}
	}

	if negB''','''			err = errors.Wrapf(err, "failed to compile pattern: %#v", expr)
			return nil, nil
		}
	}

	if negB''')],1),
('compile negA in ahead only',"C08",[(H,'if negAExpr != `` {','if negAExpr != `` && negAWidth != 0 {')],1),
('rule error skipped',"C08",[(S,'''	transcribe, err := newRules(transcribePairs, macros, vars)
	if err != nil {
		return nil, err
	}''','''	transcribe, err := newRules(transcribePairs, macros, vars)
	if err != nil && transcribe != nil {
		return nil, err
	}''')],1),
('addPair ignored',"C08",[('pkg/hsl/parser.go','if err := section.addPair(lastString, values, line); err != nil {\n				return nil,','if err := section.addPair(lastString, values, line); err != nil && tok == Arrow {\n				return nil,')],1),
('unknown lang word',"C08",[('hangulize.go','		return word, err\n','		return "", err\n')],1),
('loadspec no wrap',"C08",[(SS,'fmt.Errorf("%w: %s", ErrSpecNotFound, lang)','fmt.Errorf("%s: %w", lang, err)')],1),
('loadspec parse err returned nil',"C08",[(SS,'''		panic(fmt.Errorf("bundled spec '%s': %w", lang, err))''','''		return &Spec{}, nil''')],1),
('R loadspec any error',"C08",[(SS,'if errors.Is(err, fs.ErrNotExist) {','if err != nil {')],0),
('R translit helper',"C08",[(P,'''		var err error
		word, err = t.Transliterate(word)
		if err != nil {
			return word, fmt.Errorf("%w: %s", ErrTranslit, scheme)
		}
''','''		w, err := runTranslit(t, word, scheme)
		if err != nil {
			return w, err
		}
		word = w
'''),(P,'// 1. Transliterate','''func runTranslit(t Translit, word, scheme string) (string, error) {
	out, err := t.Transliterate(word)
	if err == nil {
		return out, nil
	}
	return out, fmt.Errorf("%w: %s", ErrTranslit, scheme)
}

// 1. Transliterate''')],0),
('R parser switch',"C08",[('pkg/hsl/parser.go','''		if tok == Illegal {
			return nil, fmt.Errorf("parse: %w: %s", errIllegalToken, lit)
		} else if tok == EOF {
			break
		} else if tok == Comment {
			continue
		}

		// Remember''','''		done := false
		switch tok {
		case Illegal:
			return nil, fmt.Errorf("parse: %w: %s", errIllegalToken, lit)
		case EOF:
			done = true
		case Comment:
			continue
		}
		if done {
			break
		}

		// Remember''')],0),
('R compile helper',"C08",[(H,'''	if negAExpr != `` {
		negA, err = regexp.Compile(negAExpr)
		if err != nil {
			err = errors.Wrapf(err, "failed to compile pattern: %#v", expr)
			return nil, err
		}
	}

	if negBExpr != `` {
		negB, err = regexp.Compile(negBExpr)
		if err != nil {
			err = errors.Wrapf(err, "failed to compile pattern: %#v", expr)
			return nil, err
		}
	}
''','''	if negA, err = compileOpt(negAExpr, expr); err != nil {
		return nil, err
	}
	if negB, err = compileOpt(negBExpr, expr); err != nil {
		return nil, err
	}
'''),(H,'// Letters returns','''func compileOpt(e, expr string) (*regexp.Regexp, error) {
	if e == "" {
		return nil, nil
	}
	re, err := regexp.Compile(e)
	return re, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
}

// Letters returns''')],0),
]
