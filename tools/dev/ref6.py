exec(open('/tmp/ref3.py').read().split("\nr('")[0])
PP='pkg/hsl/parser.go';LL='pkg/hsl/lexer.go';SS='pkg/hsl/structures.go';Q='spec.go'
R_=open('/repo/'+PP).read()
A=R_[R_.index("		// The common behavior for useless tokens."):R_.index("			values, err := p.parseValues()")]
r('k: parse switch',(PP,A,'''		switch tok {
		case Illegal:
			return nil, fmt.Errorf("parse: %w: %s", errIllegalToken, lit)
		case EOF:
			return hsl, nil
		case String:
			lastString = lit
		case Colon:
			sectionName, sectionLine = lastString, line
		}

		if tok == Equal || tok == Arrow {
			if sectionName == "" {
				return nil, errors.New("pair found not in section")
			}

'''),(PP,"	}\n\n	return hsl, nil\n}\n\nfunc (p *parser) parseValues","	}\n}\n\nfunc (p *parser) parseValues"))
B1=R_[R_.index("			var section Section\n"):R_.index("			if err := section.addPair")]
r('k: section helper',(PP,B1,'''			section := hsl.section(sectionName, tok == Equal, sectionLine)
'''),(PP,None,'''
func (h HSL) section(name string, dict bool, line int) Section {
	if s, ok := h[name]; ok {
		return s
	}
	var s Section
	if dict {
		s = newDictSection(line)
	} else {
		s = newListSection(line)
	}
	h[name] = s
	return s
}
'''))
V=R_[R_.index("func (p *parser) parseValues() ([]string, error) {"):]
V=V[:V.index("\n}\n")+3]
r('k: values struct state',(PP,V,'''func (p *parser) parseValues() ([]string, error) {
	values := []string{}

	for done := false; !done; {
		tok, lit, _ := p.scan()

		if err := p.lexer.Err(); err != nil {
			return nil, fmt.Errorf("parse values: %w", err)
		}

		switch tok {
		case Illegal:
			return nil, fmt.Errorf("parse values: %w: %s", errIllegalToken, lit)
		case String:
			values = append(values, lit)
		case EOF, Comment, Newline:
			done = true
		}
	}

	return values, nil
}
'''))
r('k: values by pointer',(PP,V,'''func (p *parser) parseValues() ([]string, error) {
	values := make([]string, 0)
	for {
		more, err := p.parseValue(&values)
		if err != nil {
			return nil, err
		}
		if !more {
			return values, nil
		}
	}
}

func (p *parser) parseValue(values *[]string) (bool, error) {
	tok, lit, _ := p.scan()

	if err := p.lexer.Err(); err != nil {
		return false, fmt.Errorf("parse values: %w", err)
	}
	if tok == Illegal {
		return false, fmt.Errorf("parse values: %w: %s", errIllegalToken, lit)
	}
	if tok == String {
		*values = append(*values, lit)
	}
	return tok != EOF && tok != Comment && tok != Newline, nil
}
'''))
r('k: values field',(PP,V,'''func (p *parser) parseValues() ([]string, error) {
	p.values = make([]string, 0)

	for {
		tok, lit, _ := p.scan()

		if err := p.lexer.Err(); err != nil {
			return nil, fmt.Errorf("parse values: %w", err)
		}
		if tok == Illegal {
			return nil, fmt.Errorf("parse values: %w: %s", errIllegalToken, lit)
		} else if tok == EOF || tok == Comment || tok == Newline {
			return p.values, nil
		}
		if tok == String {
			p.values = append(p.values, lit)
		}
	}
}
'''),(PP,"type parser struct {\n","type parser struct {\n	values []string\n"),(PP,"&parser{","&parser{lexer: ") if "&parser{newLexer" in R_ or "&parser{lexer" not in R_ else (PP,"type","type"))
r('k: state fields',(PP,"		lastString  string\n","		lastString  string\n		havePair bool\n"),(PP,"			if sectionName == \"\" {","			havePair = true\n			if sectionName == \"\" || !havePair {"))
L_=open('/repo/'+LL).read()
QS=L_[L_.index("	escaped := false\n"):L_.index("	return String, buf.String()")]
r('k: quoted lookahead',(LL,QS,'''	for {
		ch := l.read()

		switch ch {
		case eof:
			return Illegal, buf.String()
		case '"':
			return String, buf.String()
		case '\\\\':
			next := l.read()
			if next == eof {
				return Illegal, buf.String()
			}
			if next != '"' && next != '\\\\' {
				buf.WriteRune(ch)
			}
			buf.WriteRune(next)
		default:
			buf.WriteRune(ch)
		}
	}
'''),(LL,"	}\n	return String, buf.String()\n","	}\n")) 
r('k: quoted builder',(LL,"func (l *lexer) scanQuotedString() (token, string) {\n	var buf bytes.Buffer\n","func (l *lexer) scanQuotedString() (token, string) {\n	var buf strings.Builder\n"))
r('k: quoted runes',(LL,"func (l *lexer) scanQuotedString() (token, string) {\n	var buf bytes.Buffer\n","func (l *lexer) scanQuotedString() (token, string) {\n	var buf []rune\n"),(LL,"return Illegal, buf.String()","return Illegal, string(buf)"),(LL,"				buf.WriteRune('\\\\')","				buf = append(buf, '\\\\')"),(LL,"			buf.WriteRune(ch)\n			escaped","			buf = append(buf, ch)\n			escaped"),(LL,"		buf.WriteRune(ch)\n	}\n\n	return String, buf.String()","		buf = append(buf, ch)\n	}\n\n	return String, string(buf)"))
r('k: quoted concat',(LL,"func (l *lexer) scanQuotedString() (token, string) {\n	var buf bytes.Buffer\n","func (l *lexer) scanQuotedString() (token, string) {\n	var text string\n"),(LL,"return Illegal, buf.String()","return Illegal, text"),(LL,"				buf.WriteRune('\\\\')","				text += \"\\\\\""),(LL,"			buf.WriteRune(ch)\n			escaped","			text += string(ch)\n			escaped"),(LL,"		buf.WriteRune(ch)\n	}\n\n	return String, buf.String()","		text += string(ch)\n	}\n\n	return String, text"))
r('k: scan switch',(LL,L_[L_.index("	if isInitialLetter(ch) {\n		l.unread"):L_.rindex("	return Illegal, string(ch)")],'''	switch {
	case isInitialLetter(ch):
		l.unread()
		return l.scanString()
	case ch == '"':
		l.unread()
		return l.scanQuotedString()
	case isCommentLetter(ch):
		l.unread()
		return l.scanComment()
	case ch == ':':
		return Colon, ":"
	case ch == ',':
		return Comma, ","
	case ch == '=':
		return Equal, "="
	case ch == '-':
		l.unread()
		return l.scanArrow()
	}

'''))
r('k: quoted takes on',(LL,'''		l.unread()
		return l.scanQuotedString()''','''		return l.scanQuotedString()'''),(LL,'''	// discard initial quote
	ch := l.read()
	if ch != '"' {
		panic("not a quote")
	}

''',''))
r('k: string first given',(LL,'''		l.unread()
		return l.scanString()''','''		return String, string(ch) + l.readWhile(isLetter)'''),(LL,'''func (l *lexer) scanString() (token, string) {
	return String, l.readWhile(isLetter)
}

''',''))
r('k: list add',(SS,"	s.pairs = append(s.pairs, Pair{l, r, liner{line}})","	pair := Pair{l: l, r: r, liner: liner{line}}\n	s.pairs = append(s.pairs, pair)"))
r('k: add newPair',(SS,"	s.pairs = append(s.pairs, Pair{l, r, liner{line}})","	s.pairs = append(s.pairs, newPair(l, r, line))"),(SS,None,"\nfunc newPair(l string, r []string, line int) Pair {\n	return Pair{l, r, liner{line}}\n}\n"))
r('k: dict add',(SS,"	_, ok := s.dict[l]\n	if ok {\n","	if _, exists := s.dict[l]; exists {\n"))
r('k: injective dict',(SS,"	for _, pair := range s.Pairs() {\n		right","	pairs := s.Pairs()\n	for i := 0; i < len(pairs); i++ {\n		pair := pairs[i]\n		right"))
r('k: injective keys',(SS,"	for _, pair := range s.Pairs() {\n		right","	for _, pair := range s.Pairs() {\n		var right []string\n		right"))
r('k: map from pairs',(SS,"	for _, pair := range s.dict {\n		m[pair.Left()] = pair.Right()","	for _, pair := range s.Pairs() {\n		m[pair.Left()] = pair.Right()"))
r('k: map key',(SS,"	for _, pair := range s.dict {\n		m[pair.Left()] = pair.Right()","	for left, pair := range s.dict {\n		m[left] = pair.r"))
Q_=open('/repo/'+Q).read()
RU=Q_[Q_.index("	rules := make([]Rule, len(pairs))"):Q_.index("	return rules, nil")]
r('k: rules append',(Q,"	rules := make([]Rule, len(pairs))","	rules := make([]Rule, 0, len(pairs))"),(Q,"		rules[i] = Rule{i, from, to}","		rules = append(rules, Rule{i, from, to})"))
r('k: rule helper',(Q,RU,'''	rules := make([]Rule, len(pairs))

	for i, pair := range pairs {
		rule, err := newRule(i, pair, macros, vars)
		if err != nil {
			return nil, err
		}
		rules[i] = *rule
	}

'''),(Q,None,'''
func newRule(i int, pair hsl.Pair, macros map[string]string, vars map[string][]string) (*Rule, error) {
'''+RU[RU.index("		from, err"):RU.index("		rules[i]")]+'''	return &Rule{i, from, to}, nil
}
'''))
r('k: rule closure',(Q,RU,'''	rules := make([]Rule, len(pairs))

	newRule := func(i int, pair hsl.Pair) error {
'''+RU[RU.index("		from, err"):RU.index("		rules[i]")].replace("return nil, ","return ")+'''		rules[i] = Rule{i, from, to}
		return nil
	}
	for i := range pairs {
		if err := newRule(i, pairs[i]); err != nil {
			return nil, err
		}
	}

'''))
T=Q_[Q_.index("		for _, pair := range list.Pairs() {\n			word"):]
T=T[:T.index("	// ----")]
r('k: tests helper',(Q,T,'''		test, err = newTests(list.Pairs())
		if err != nil {
			return nil, err
		}
	}

'''),(Q,None,'''
func newTests(pairs []hsl.Pair) ([][2]string, error) {
	var test [][2]string
	for _, pair := range pairs {
		right := pair.Right()
		if len(right) == 0 {
			return nil, errors.Errorf("no result for the test: %#v", pair.Left())
		}
		test = append(test, [2]string{pair.Left(), right[0]})
	}
	return test, nil
}
'''))
r('k: tests indexed',(Q,T,'''		pairs := list.Pairs()
		test = make([][2]string, len(pairs))
		for i, pair := range pairs {
			right := pair.Right()
			if len(right) == 0 {
				return nil, errors.Errorf("no result for the test: %#v", pair.Left())
			}
			test[i][0] = pair.Left()
			test[i][1] = right[0]
		}
	}

'''))
r('k: norm args direct',(Q,"			pairs = append(pairs, [2]string{from, to})","			pair := [2]string{from, to}\n			pairs = append(pairs, pair)"))
r('k: norm add closure',(Q,"		for _, from := range froms {\n			pairs = append(pairs, [2]string{from, to})\n		}\n","		add(to, froms)\n"),(Q,"	var pairs [][2]string\n	for to","	var pairs [][2]string\n	add := func(to string, froms []string) {\n		for _, from := range froms {\n			pairs = append(pairs, [2]string{from, to})\n		}\n	}\n	for to"))
r('k: norm letters closure',(Q,"		for _, let := range to {\n			normLetters[let] = true\n		}\n","		markLetters(normLetters, to)\n"),(Q,None,"\nfunc markLetters(set map[rune]bool, s string) {\n	for _, let := range s {\n		set[let] = true\n	}\n}\n"))
r('k: norm struct',(Q,"	var pairs [][2]string\n","	type change struct{ from, to string }\n	var pairs []change\n"),(Q,"[2]string{from, to})","change{from, to})"),(Q,"		if pairs[i][0] != pairs[j][0] {\n			return pairs[i][0] > pairs[j][0]\n		}\n		return pairs[i][1] < pairs[j][1]","		if pairs[i].from != pairs[j].from {\n			return pairs[i].from > pairs[j].from\n		}\n		return pairs[i].to < pairs[j].to"),(Q,"args, pair[0], pair[1])","args, pair.from, pair.to)"))
