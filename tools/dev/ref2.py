exec(open('/tmp/ref1.py').read().split("r('hangulize: New")[0])
# hre
r('find: negative helpers', (PA,'''		// Test negative lookahead.
		if p.negA != nil {
			// negA is anchored by "^". Keep the whole following text to not
			// confuse "$" in the lookahead.
			if p.negA.MatchString(word[stop:]) {
				continue
			}
		}

		// Test negative lookbehind.
		if p.negB != nil {
			negBStart := 0
			if p.negBWidth != -1 {
				// negB is anchored by "$". Keep one more letter to not confuse
				// "^" in the lookbehind.
				negBStart = shiftLeft(word, start, p.negBWidth+1)
			}

			if p.negB.MatchString(word[negBStart:start]) {
				continue
			}
		}
''','''		if p.denied(word, start, stop) {
			continue
		}
'''),(PA,'// Replace finds matches','''func (p *Pattern) denied(word string, start, stop int) bool {
	// Test negative lookahead.
	if p.negA != nil && p.negA.MatchString(word[stop:]) {
		return true
	}

	// Test negative lookbehind.
	if p.negB == nil {
		return false
	}
	negBStart := 0
	if p.negBWidth != -1 {
		negBStart = shiftLeft(word, start, p.negBWidth+1)
	}
	return p.negB.MatchString(word[negBStart:start])
}

// Replace finds matches'''))
r('find: nil check', (PA,'''		for i := range m {
			if m[i] != -1 {
				m[i] += offset
			}
		}
''','''		if m == nil {
			// No more match.
			break
		}
		for i, loc := range m {
			if loc >= 0 {
				m[i] = loc + offset
			}
		}
'''),(PA,'''		if lenM == 0 {
			// No more match.
			break
		}

''',''))
r('find: infinite loop', (PA,'	for offset < length && (n < 0 || len(matches) < n) {\n','	for {\n		if offset >= length {\n			break\n		}\n		if n >= 0 && len(matches) >= n {\n			break\n		}\n\n'))
r('find: shift helper', (PA,'''		for i := range m {
			if m[i] != -1 {
				m[i] += offset
			}
		}
''','''		shift(m, offset)
'''),(PA,'// Find searches up','''func shift(m []int, offset int) {
	for i := range m {
		if m[i] != -1 {
			m[i] += offset
		}
	}
}

// Find searches up'''))
r('find: match build', (PA,'''		match := []int{start, stop}
		// Keep submatches in the core match.
		match = append(match, m[6:lenM-4]...)

		// Export the match.
		matches = append(matches, match)''','''		core := m[6 : lenM-4]
		match := make([]int, 0, 2+len(core))
		match = append(match, start, stop)
		match = append(match, core...)

		// Export the match.
		matches = append(matches, match)'''))
r('find: start==stop', (PA,'if stop-start == 0 {','if start == stop {'),(PA,'len(m)-4]\n	if stop == -1 {\n		stop = m[1]\n	}\n\n	return start, stop','len(m)-4]\n	if stop < 0 {\n		stop = m[1]\n	}\n	return start, stop'))
r('find: pick inline', (PA,'		start, stop := pickStartStop(m)\n','''		start, stop := m[5], m[lenM-4]
		if start == -1 {
			start = m[0]
		}
		if stop == -1 {
			stop = m[1]
		}
'''),(PA,'''func pickStartStop(m []int) (int, int) {
	start := m[5]
	if start == -1 {
		start = m[0]
	}

	stop := m[len(m)-4]
	if stop == -1 {
		stop = m[1]
	}

	return start, stop
}

''',''))
r('pattern replace: helper', (PA,'''		repl, err := rpat.Interpolate(p, word, m)

		if err == nil {
			buf.WriteString(repl)
		} else {
			buf.WriteString(word[start:stop])
		}
''','''		repl, err := rpat.Interpolate(p, word, m)
		if err != nil {
			repl = word[start:stop]
		}
		buf.WriteString(repl)
'''))
r('pattern: compile helper', (PA,'''	if negAExpr != `` {
		negA, err = regexp.Compile(negAExpr)
		if err != nil {
			err = errors.Wrapf(err, "failed to compile pattern: %#v", expr)
			return nil, err
		}
	}

	if negBExpr != `` {
		negB, err = regexp.Compile(negBExpr)
		if err != nil {
			err = errors.Wrapf(err, "failed to compile pattern: %#v", expr)
			return nil, err
		}
	}

''','''	if negA, err = compileOptional(negAExpr); err != nil {
		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
	}
	if negB, err = compileOptional(negBExpr); err != nil {
		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
	}

'''),(PA,'// Letters returns the set','''func compileOptional(expr string) (*regexp.Regexp, error) {
	if expr == `` {
		return nil, nil
	}
	return regexp.Compile(expr)
}

// Letters returns the set'''))
r('pattern: letters helper', (PA,'''	letters := make(map[rune]bool)
	for _, let := range splitLetters(regexpLetters(combinedExpr)) {
		letters[let] = true
	}
''','''	letters := letterSet(combinedExpr)
'''),(RPA,'''	letters := make(map[rune]bool)
	for _, let := range splitLetters(regexpLetters(expr)) {
		letters[let] = true
	}
''','''	letters := letterSet(expr)
'''),(UT,None,'''
func letterSet(expr string) map[rune]bool {
	set := make(map[rune]bool)
	for _, let := range regexpLetters(expr) {
		set[let] = true
	}
	return set
}
'''))
r('letters: sorted helper',(PA,'''	letters := make([]rune, 0, len(p.letters))
	for let := range p.letters {
		letters = append(letters, let)
	}
	sort.Slice(letters, func(i, j int) bool {
		return letters[i] < letters[j]
	})
	return letters
''','''	return sortedLetters(p.letters)
'''),(RPA,'''	letters := make([]rune, 0, len(rp.letters))
	for let := range rp.letters {
		letters = append(letters, let)
	}
	sort.Slice(letters, func(i, j int) bool {
		return letters[i] < letters[j]
	})
	return letters
''','''	return sortedLetters(rp.letters)
'''),(UT,None,'''
func sortedLetters(set map[rune]bool) []rune {
	letters := make([]rune, 0, len(set))
	for let := range set {
		letters = append(letters, let)
	}
	sort.Slice(letters, func(i, j int) bool {
		return letters[i] < letters[j]
	})
	return letters
}
'''),(UT,'	"regexp"\n','	"regexp"\n	"sort"\n'),(PA,'	"sort"\n',''),(RPA,'	"sort"\n',''))
r('interpolate: helper', (RPA,'''			// Find index of the matched character in the var.
			i := indexOf(fromVal, fromVar)
			if i == -1 {
				return "", errors.Errorf("%#v is not in mapped var", fromVal)
			}
			i = i % len(part.usedVar)

			// Choose a replacement character at the same index.
			toVal := part.usedVar[i]

			buf.WriteString(toVal)
			varIndex++''','''			toVal, err := mapVar(fromVal, fromVar, part.usedVar)
			if err != nil {
				return "", err
			}

			buf.WriteString(toVal)
			varIndex++'''),(RPA,'// Letters returns','''// mapVar chooses the value at the same index.
func mapVar(val string, from, to []string) (string, error) {
	i := indexOf(val, from)
	if i == -1 {
		return "", errors.Errorf("%#v is not in mapped var", val)
	}
	return to[i%len(to)], nil
}

// Letters returns'''))
r('interpolate: if instead of switch', (RPA,'''		switch part.tok {

		case plain:
			// just plain text
			buf.WriteString(part.lit)

		case toVar:
''','''		if part.tok == plain {
			// just plain text
			buf.WriteString(part.lit)
			continue
		}

		if part.tok == toVar {
'''))
r('interpolate: builder + checks', (RPA,'	var buf bytes.Buffer\n	varIndex := 0','	var buf strings.Builder\n	varIndex := 0'),(RPA,'	"bytes"\n	"sort"','	"sort"\n	"strings"'),(RPA,'if varIndex > len(p.usedVars)-1 {','if varIndex >= len(p.usedVars) {'))
r('rpattern: addPlain closure', (RPA,'''		plainText := _expr[offset:m[0]]
		if plainText != "" {
			parts = append(parts, rPart{plain, plainText, nil})
		}

		// Keep var and''','''		addPlain(_expr[offset:m[0]])

		// Keep var and'''),(RPA,'''	plainText := _expr[offset:]
	if plainText != "" {
		parts = append(parts, rPart{plain, plainText, nil})
	}
''','''	addPlain(_expr[offset:])
'''),(RPA,'	for _, m := range reVar.','''	addPlain := func(text string) {
		if text != "" {
			parts = append(parts, rPart{tok: plain, lit: text})
		}
	}

	for _, m := range reVar.'''))
r('util: shiftLeft loop', (UT,'''	for ; letters > 0 && index > 0; letters-- {
		_, size := utf8.DecodeLastRuneInString(s[:index])
		index -= size
	}
	return index''','''	for i := 0; i < letters; i++ {
		if index <= 0 {
			break
		}
		_, size := utf8.DecodeLastRuneInString(s[:index])
		index -= size
	}
	return index'''))
r('util: splitLetters conv', (UT,'''	var letters []rune
	for _, ch := range word {
		letters = append(letters, rune(ch))
	}
	return letters''','''	return []rune(word)'''))
r('util: substr', (UT,'''	if start < 0 || stop < 0 {
		return ""
	}

	n := len(s)
	if start >= n {
		return ""
	}
	if stop > n {
		stop = n
	}

	if stop-start > 0 {
		return s[start:stop]
	}
	return ""''','''	if n := len(s); stop > n {
		stop = n
	}
	if start < 0 || start >= stop {
		return ""
	}
	return s[start:stop]'''))
r('util: indexOf idx', (UT,'''	for i, _val := range vals {
		if _val == val {
			return i
		}
	}
	return -1''','''	found := -1
	for i := 0; i < len(vals) && found == -1; i++ {
		if vals[i] == val {
			found = i
		}
	}
	return found'''))
r('var: builder', (VA,'''		escapedVals := make([]string, len(vals))
		for i, val := range vals {
			escapedVals[i] = regexp.QuoteMeta(val)
		}

		return `(` + strings.Join(escapedVals, `|`) + `)`''','''		return alternatives(vals)'''),(VA,None,'''
func alternatives(vals []string) string {
	escaped := make([]string, 0, len(vals))
	for _, val := range vals {
		escaped = append(escaped, regexp.QuoteMeta(val))
	}
	return `(` + strings.Join(escaped, `|`) + `)`
}
'''))
r('width: fallthrough merged', (WI,'''	case syntax.OpBeginLine, syntax.OpEndLine:
		// matches empty string at beginning of line
		// matches empty string at end of line
		fallthrough
	case syntax.OpBeginText, syntax.OpEndText:
		// matches empty string at beginning of text
		// matches empty string at end of text
		fallthrough
	case syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		// matches word boundary `\\b`
		// matches word non-boundary `\\B`
		return 0

''','''	case syntax.OpBeginLine, syntax.OpEndLine,
		syntax.OpBeginText, syntax.OpEndText,
		syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		return 0

'''),(WI,'''	case syntax.OpCapture:
		// capturing subexpression with index Cap, optional name Name
		return RegexpMaxWidth(re.Sub0[0])

''','''	case syntax.OpCapture, syntax.OpQuest:
		return RegexpMaxWidth(re.Sub[0])

'''),(WI,'''	case syntax.OpQuest:
		// matches Sub[0] zero or one times
		return RegexpMaxWidth(re.Sub0[0])

''',''))
r('assertions: no-neg early', (AS,'''	isNeg := strings.HasPrefix(lookExpr, `~`)

	if isNeg {''','''	if strings.HasPrefix(lookExpr, `~`) {'''))
r('assertions: edges helper', (AS,'''	expr = reLeftEdge.ReplaceAllStringFunc(expr, func(e string) string {
		if e == `^` {
			// "{}" is a zero-width space which is injected by an RPattern.
			return `(?:^|\\s+|{})`
		}
		// ^^...
		return `^`
	})
	expr = reRightEdge.ReplaceAllStringFunc(expr, func(e string) string {
		if e == `$` {
			// "{}" is a zero-width space which is injected by an RPattern.
			return `(?:$|\\s+|{})`
		}
		// $$...
		return `$`
	})
	return expr''','''	expr = expandEdge(expr, reLeftEdge, `^`)
	return expandEdge(expr, reRightEdge, `$`)'''),(AS,None,'''
func expandEdge(expr string, edges *regexp.Regexp, edge string) string {
	return edges.ReplaceAllStringFunc(expr, func(e string) string {
		if e == edge {
			// "{}" is a zero-width space which is injected by an RPattern.
			return `(?:` + edge + `|\\s+|{})`
		}
		return edge
	})
}
'''),(AS,'	"fmt"\n','	"fmt"\n	"regexp"\n'))
# hsl
r('lexer: readWhile loop', (LX,'''	for ch := l.read(); ch != eof && test(ch); ch = l.read() {
		buf.WriteRune(ch)
	}
	l.unread()
''','''	for {
		ch := l.read()
		if ch == eof || !test(ch) {
			break
		}
		buf.WriteRune(ch)
	}
	l.unread()
'''))
r('lexer: scan switch', (LX,'''	if ch == eof {
		return EOF, ""
	}
	if ch == '\\n' {
		return Newline, "\\n"
	}

	if unicode''','''	switch ch {
	case eof:
		return EOF, ""
	case '\\n':
		return Newline, "\\n"
	}

	if unicode'''),(LX,'''	if ch == ':' {
		return Colon, ":"
	}
	if ch == ',' {
		return Comma, ","
	}
	if ch == '=' {
		return Equal, "="
	}
	if ch == '-' {
		l.unread()
		return l.scanArrow()
	}
''','''	switch ch {
	case ':':
		return Colon, ":"
	case ',':
		return Comma, ","
	case '=':
		return Equal, "="
	case '-':
		l.unread()
		return l.scanArrow()
	}
'''))
r('lexer: quoted switch', (LX,'''		if escaped {
			// Only quotes and backslashes need to be escaped.
			if ch != '"' && ch != '\\\\' {
				buf.WriteRune('\\\\')
			}
			buf.WriteRune(ch)
			escaped = false
			continue
		}

		if ch == '"' {
			break
		}
		if ch == '\\\\' {
			escaped = true
			continue
		}

		buf.WriteRune(ch)
	}

	return String, buf.String()''','''		switch {
		case escaped:
			// Only quotes and backslashes need to be escaped.
			if ch != '"' && ch != '\\\\' {
				buf.WriteRune('\\\\')
			}
			buf.WriteRune(ch)
			escaped = false
		case ch == '"':
			return String, buf.String()
		case ch == '\\\\':
			escaped = true
		default:
			buf.WriteRune(ch)
		}
	}'''))
r('lexer: read reorder', (LX,'''	l.prevLine = l.line
	if ch == '\\n' {
		l.line++
	}

	return ch''','''	l.advance(ch)
	return ch'''),(LX,'// unread rewinds','''func (l *lexer) advance(ch rune) {
	l.prevLine = l.line
	if ch == '\\n' {
		l.line++
	}
}

// unread rewinds'''))
r('parser: switch tokens', (PS,'''		if tok == Illegal {
			return nil, fmt.Errorf("parse: %w: %s", errIllegalToken, lit)
		} else if tok == EOF {
			break
		} else if tok == Comment {
			continue
		}

		// Remember''','''		if tok == EOF {
			break
		}
		switch tok {
		case Illegal:
			return nil, fmt.Errorf("parse: %w: %s", errIllegalToken, lit)
		case Comment:
			continue
		}

		// Remember'''))
r('parser: section helper', (PS,'''			var section Section
			var ok bool

			// If an equals sign found, the last string is a key in a dict
			// section.
			if tok == Equal {
				section, ok = hsl[sectionName]

				if !ok {
					section = newDictSection(sectionLine)
					hsl[sectionName] = section
				}
			}

			// If an arrow sign found, the last string is a left value in a
			// pairs section.
			if tok == Arrow {
				section, ok = hsl[sectionName]

				if !ok {
					section = newListSection(sectionLine)
					hsl[sectionName] = section
				}
			}
''','''			section, ok := hsl[sectionName]
			if !ok {
				if tok == Equal {
					section = newDictSection(sectionLine)
				} else {
					section = newListSection(sectionLine)
				}
				hsl[sectionName] = section
			}
'''))
r('parser: values switch', (PS,'''		// Collect strings in values.
		if tok == String {
			values = append(values, lit)
		}

		// There is a more value.
		if tok == Comma {
			continue
		}

		// Values cannot be written over multiple lines.
		if tok == Newline {
			break
		}
	}

	return values, nil''','''		switch tok {
		case String:
			values = append(values, lit)
		case Newline:
			// Values cannot be written over multiple lines.
			return values, nil
		}
	}

	return values, nil'''))
r('parser: parsePair helper', (PS,'''			if err := section.addPair(lastString, values, line); err != nil {
				return nil, fmt.Errorf("parse: failed to add pair: %w", err)
			}
''','''			err = section.addPair(lastString, values, line)
			if err != nil {
				return nil, fmt.Errorf("parse: failed to add pair: %w", err)
			}
'''))
r('structures: map via pairs', (ST,'	for _, pair := range s.dict {\n		m[pair.Left()] = pair.Right()\n	}','	for left, pair := range s.dict {\n		m[left] = pair.r\n	}'))
r('structures: one/all', (ST,'''	pair, ok := s.dict[left]

	if !ok {
		return ""
	}

	right := pair.Right()

	if len(right) == 0 {
		return ""
	}

	return right[0]''','''	if right := s.All(left); len(right) > 0 {
		return right[0]
	}
	return ""'''))
r('structures: addPair', (ST,'	_, ok := s.dict[l]\n	if ok {\n		return','	if _, dup := s.dict[l]; dup {\n		return'))
r('structures: injective', (ST,'''		if len(right) != 1 {
			err := fmt.Errorf("right %#v has multiple values", right)
			return nil, err
		}

		oneToOne[pair.Left()] = right[0]''','''		switch len(right) {
		case 1:
			oneToOne[pair.Left()] = right[0]
		default:
			return nil, fmt.Errorf("right %#v has multiple values", right)
		}'''))
# spec
r('spec: dict helper', (S,'''	var vars map[string][]string
	if sec, ok := h["vars"]; ok {
		dict, err := dictSection("vars", sec)
		if err != nil {
			return nil, err
		}

		vars = dict.Map()
	}
''','''	vars, err := mapSection(h, "vars")
	if err != nil {
		return nil, err
	}
'''),(S,'''	var normalize map[string][]string
	if sec, ok := h["normalize"]; ok {
		dict, err := dictSection("normalize", sec)
		if err != nil {
			return nil, err
		}

		normalize = dict.Map()
	}
''','''	normalize, err := mapSection(h, "normalize")
	if err != nil {
		return nil, err
	}
'''),(S,'// dictSection asserts','''func mapSection(h hsl.HSL, name string) (map[string][]string, error) {
	sec, ok := h[name]
	if !ok {
		return nil, nil
	}
	dict, err := dictSection(name, sec)
	if err != nil {
		return nil, err
	}
	return dict.Map(), nil
}

// dictSection asserts'''))
r('spec: pairs helper', (S,'''	var rewritePairs []hsl.Pair
	if sec, ok := h["rewrite"]; ok {
		list, err := listSection("rewrite", sec)
		if err != nil {
			return nil, err
		}

		rewritePairs = list.Pairs()
	}

	rewrite, err := newRules(rewritePairs, macros, vars)
	if err != nil {
		return nil, err
	}
''','''	rewrite, err := parseRules(h, "rewrite", macros, vars)
	if err != nil {
		return nil, err
	}
'''),(S,'''	var transcribePairs []hsl.Pair
	if sec, ok := h["transcribe"]; ok {
		list, err := listSection("transcribe", sec)
		if err != nil {
			return nil, err
		}

		transcribePairs = list.Pairs()
	}

	transcribe, err := newRules(transcribePairs, macros, vars)
	if err != nil {
		return nil, err
	}
''','''	transcribe, err := parseRules(h, "transcribe", macros, vars)
	if err != nil {
		return nil, err
	}
'''),(S,'// dictSection asserts','''func parseRules(h hsl.HSL, name string, macros map[string]string, vars map[string][]string) ([]Rule, error) {
	sec, ok := h[name]
	if !ok {
		return newRules(nil, macros, vars)
	}
	list, err := listSection(name, sec)
	if err != nil {
		return nil, err
	}
	return newRules(list.Pairs(), macros, vars)
}

// dictSection asserts'''))
r('spec: test helper', (S,'''		for _, pair := range list.Pairs() {
			word := pair.Left()
			right := pair.Right()

			if len(right) == 0 {
				return nil, errors.Errorf("no result for the test: %#v", word)
			}

			exm := [2]string{word, right[0]}

			test = append(test, exm)
		}
''','''		test, err = newExamples(list.Pairs())
		if err != nil {
			return nil, err
		}
'''),(S,'// dictSection asserts','''func newExamples(pairs []hsl.Pair) ([][2]string, error) {
	var test [][2]string
	for _, pair := range pairs {
		right := pair.Right()
		if len(right) == 0 {
			return nil, errors.Errorf("no result for the test: %#v", pair.Left())
		}
		test = append(test, [2]string{pair.Left(), right[0]})
	}
	return test, nil
}

// dictSection asserts'''))
r('spec: named literal', (S,'''	spec := Spec{
		lang,
		config,

		macros,
		vars,
		normalize,

		rewrite,
		transcribe,

		test,

		source,

		script,
		puncts,

		normReplacer,
		normLetters,
	}
	return &spec, nil''','''	return &Spec{
		Lang:         lang,
		Config:       config,
		Macros:       macros,
		Vars:         vars,
		Normalize:    normalize,
		Rewrite:      rewrite,
		Transcribe:   transcribe,
		Test:         test,
		Source:       source,
		script:       script,
		puncts:       puncts,
		normReplacer: normReplacer,
		normLetters:  normLetters,
	}, nil'''))
r('spec: normLetters helper', (S,'''	normLetters := make(map[rune]bool, len(normalize))
	for to := range normalize {
		for _, let := range to {
			normLetters[let] = true
		}
	}
''','''	normLetters := collectNormLetters(normalize)
'''),(S,'// dictSection asserts','''func collectNormLetters(normalize map[string][]string) map[rune]bool {
	letters := make(map[rune]bool)
	for to := range normalize {
		for _, let := range []rune(to) {
			letters[let] = true
		}
	}
	return letters
}

// dictSection asserts'''))
r('spec: rule helper', (S,'''	for i, pair := range pairs {
		from, err := hre.NewPattern(pair.Left(), macros, vars)
		if err != nil {
			return nil, err
		}

		negAWidth, negBWidth := from.NegativeLookaroundWidths()
		if negAWidth == -1 || negBWidth == -1 {
			return nil, errors.Errorf(
				"%s contains unlimited negative lookaround", from)
		}

		right := pair.Right()
		if len(right) == 0 {
			return nil, errors.Errorf("%s has no replacement", from)
		}

		to := hre.NewRPattern(right[0], macros, vars)

		rules[i] = Rule{i, from, to}
	}

	return rules, nil''','''	for i, pair := range pairs {
		rule, err := newRule(i, pair, macros, vars)
		if err != nil {
			return nil, err
		}
		rules[i] = *rule
	}

	return rules, nil'''),(S,'// collectPuncts coll','''func newRule(id int, pair hsl.Pair, macros map[string]string, vars map[string][]string) (*Rule, error) {
	from, err := hre.NewPattern(pair.Left(), macros, vars)
	if err != nil {
		return nil, err
	}

	if a, b := from.NegativeLookaroundWidths(); a == -1 || b == -1 {
		return nil, errors.Errorf(
			"%s contains unlimited negative lookaround", from)
	}

	right := pair.Right()
	if len(right) == 0 {
		return nil, errors.Errorf("%s has no replacement", from)
	}

	return &Rule{ID: id, From: from, To: hre.NewRPattern(right[0], macros, vars)}, nil
}

// collectPuncts coll'''))
r('spec: rules append', (S,'	rules := make([]Rule, len(pairs))','	rules := make([]Rule, 0, len(pairs))'),(S,'		rules[i] = Rule{i, from, to}','		rules = append(rules, Rule{ID: i, From: from, To: to})'))
r('spec: language codes', (S,'''	var codes [2]string
	codes[0] = _codes[0]
	codes[1] = _codes[1]

	lang := Language{
		ID:       dict.One("id"),
		Codes:    codes,''','''	lang := Language{
		ID:       dict.One("id"),
		Codes:    [2]string{_codes[0], _codes[1]},'''))
r('spec: puncts', (S,'''			if !unicode.IsPunct(let) {
				continue
			}

			// Punctuations appearing in the above RPatterns should be
			// discarded. Bacause they are just hints for rewriting.
			if rletters[let] {
				continue
			}

			puncts[let] = true''','''			// Punctuations appearing in the above RPatterns should be
			// discarded. Bacause they are just hints for rewriting.
			if unicode.IsPunct(let) && !rletters[let] {
				puncts[let] = true
			}'''))
# jamo
r('jamo: score helper', (JA,'''		if isMoeum {
			score = medial
		} else if isTail {
			score = tail
		} else {
			score = lead
		}
''','''		switch {
		case isMoeum:
			score = medial
		case isTail:
			score = tail
		default:
			score = lead
		}
'''),(JA,'''			if c.lmt[tail] == 0 {
				score = medial
			} else {
				score = tail
			}
''','''			score = tail
			if c.lmt[tail] == 0 {
				score = medial
			}
'''))
r('jamo: hoist', (JA,'''	var (
		ch     rune
		isTail bool
		err    error
	)

	var isHangul, isMoeum, isComposed bool

''',''),(JA,'		ch, isTail, err = c.read()','		ch, isTail, err := c.read()'),(JA,'		isHangul, _, isMoeum, isComposed = analyzeHangul(ch)','		isHangul, _, isMoeum, isComposed := analyzeHangul(ch)'))
r('jamo: reader', (JA,'r: bufio.NewReader(strings.NewReader(word)),','r: strings.NewReader(word),'),(JA,'	r   *bufio.Reader','	r   *strings.Reader'),(JA,'	"bufio"\n',''))
r('jamo: analyze', (JA,'''	isHangul = hangul.IsHangul(ch)
	if !isHangul {
		return
	}
	isJaeum = hangul.IsJaeum(ch)
	isMoeum = hangul.IsMoeum(ch)
	isComposed = !isJaeum && !isMoeum
	return''','''	if !hangul.IsHangul(ch) {
		return false, false, false, false
	}
	isJaeum, isMoeum = hangul.IsJaeum(ch), hangul.IsMoeum(ch)
	return true, isJaeum, isMoeum, !(isJaeum || isMoeum)'''))
r('jamo: write', (JA,'''	// Fill missing Jamo.
	if c.lmt[lead] == 0 {
		c.lmt[lead] = 'ㅇ'
	}
	if c.lmt[medial] == 0 {
		c.lmt[medial] = 'ㅡ'
	}

	// Complete a letter.
	letter := hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail])
	c.buf.WriteRune(letter)

	// Clear.
	c.lmt = [3]rune{}''','''	l, m, t := c.lmt[lead], c.lmt[medial], c.lmt[tail]
	c.lmt = [3]rune{}

	// Fill missing Jamo.
	if l == 0 {
		l = 'ㅇ'
	}
	if m == 0 {
		m = 'ㅡ'
	}

	// Complete a letter.
	c.buf.WriteRune(hangul.Join(l, m, t))'''))
