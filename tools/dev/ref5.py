exec(open('/tmp/ref3.py').read().split("\nr('")[0])
LOOP=open('/repo/procedure.go').read()
CL=LOOP[LOOP.index("	// Pre-evaluate punct or space"):LOOP.index("	word = buf.String()\n	p.tracer.Localize")]
r('loc: neighbours direct',(P,CL,'''	edge := func(i int) bool {
		return i < 0 || i > last || unicode.IsPunct(chars[i]) || unicode.IsSpace(chars[i])
	}
	var buf bytes.Buffer
	for i, ch := range chars {
		switch {
		case ch == '\\u200B':
		case !unicode.IsPunct(ch):
			buf.WriteRune(ch)
		default:
			punct := script.LocalizePunct(ch)
			if edge(i - 1) {
				punct = strings.TrimLeftFunc(punct, unicode.IsSpace)
			}
			if edge(i + 1) {
				punct = strings.TrimRightFunc(punct, unicode.IsSpace)
			}
			buf.WriteString(punct)
		}
	}

'''))
r('loc: kinds slice',(P,CL,'''	type kind struct{ punct, space bool }
	kinds := make([]kind, len(chars)+2)
	kinds[0].space = true
	kinds[last+2].space = true
	for i, ch := range chars {
		kinds[i+1] = kind{unicode.IsPunct(ch), unicode.IsSpace(ch)}
	}
	var buf bytes.Buffer
	for i, ch := range chars {
		if ch == '\\u200B' {
			continue
		}
		if k := kinds[i+1]; !k.punct {
			buf.WriteRune(ch)
			continue
		}
		punct := script.LocalizePunct(ch)
		if l := kinds[i]; l.punct || l.space {
			punct = strings.TrimLeftFunc(punct, unicode.IsSpace)
		}
		if r := kinds[i+2]; r.punct || r.space {
			punct = strings.TrimRightFunc(punct, unicode.IsSpace)
		}
		buf.WriteString(punct)
	}

'''))
r('loc: zwsp helper',(P,"		if ch == '\\u200B' {\n			continue\n		}\n\n		if !isPunct","		if isZWSP(ch) {\n			continue\n		}\n\n		if !isPunct"),(P,None,"\nconst zwsp = '\\u200B'\n\nfunc isZWSP(ch rune) bool {\n	return ch == zwsp\n}\n"))
r('loc: punct helper',(P,'''		punct := script.LocalizePunct(ch)

		// Trim left after punct or space.
		l := i - 1
		if isPunct[l] || isSpace[l] {
			punct = strings.TrimLeftFunc(punct, unicode.IsSpace)
		}

		// Trim right before punct or space.
		r := i + 1
		if isPunct[r] || isSpace[r] {
			punct = strings.TrimRightFunc(punct, unicode.IsSpace)
		}

		buf.WriteString(punct)
''','''		buf.WriteString(p.localizePunct(ch, isPunct[i-1] || isSpace[i-1], isPunct[i+1] || isSpace[i+1]))
'''),(P,None,'''
func (p procedure) localizePunct(ch rune, left, right bool) string {
	punct := p.spec.script.LocalizePunct(ch)
	if left {
		punct = strings.TrimLeftFunc(punct, unicode.IsSpace)
	}
	if right {
		punct = strings.TrimRightFunc(punct, unicode.IsSpace)
	}
	return punct
}
'''))
r('loc: inverted',(P,'''		if !isPunct[i] {
			buf.WriteRune(ch)
			continue
		}

		punct := script.LocalizePunct(ch)
''','''		punct := string(ch)
		if !isPunct[i] {
			buf.WriteString(punct)
			continue
		}

		punct = script.LocalizePunct(ch)
'''))
r('loc: zwsp removed first',(P,"	chars := []rune(word)\n	last","	chars := []rune(strings.ReplaceAll(word, \"\\u200B\", \"\"))\n	last"))
r('loc: byte loop',(P,"	for i, ch := range chars {\n		// Skip","	for i := 0; i <= last; i++ {\n		ch := chars[i]\n		// Skip"))
r('loc: runes set',(P,"	for i, ch := range chars {\n		isPunct[i] = unicode.IsPunct(ch)\n		isSpace[i] = unicode.IsSpace(ch)\n	}\n","	for i, ch := range chars {\n		if unicode.IsPunct(ch) {\n			isPunct[i] = true\n		}\n		if unicode.IsSpace(ch) {\n			isSpace[i] = true\n		}\n	}\n"))
PSS=open('/repo/pkg/hsl/parser.go').read()
r('ps: switch',('pkg/hsl/parser.go','''		// Collect strings in values.
		if tok == String {
			values = append(values, lit)
		}

		// There is a more value.
		if tok == Comma {
			continue
		}

		// Values cannot be written over multiple lines.
		if tok == Newline {
			break
		}
	}

	return values, nil
''','''		switch tok {
		case String:
			values = append(values, lit)
		case Newline:
			return values, nil
		}
	}

	return values, nil
'''))
r('ps: map keys first',(S,'	source := sourceBuf.String()\n','''	source := sourceBuf.String()
	for name := range h {
		if name != "rewrite" {
			continue
		}
		break
	}
'''))
RPX=open('/repo/pkg/hre/rpattern.go').read()
BODY=RPX[RPX.index("	var buf bytes.Buffer\n	varIndex := 0"):RPX.index("// Letters returns the set of natural letters used in the expression in\n// ascending")]
RPF='pkg/hre/rpattern.go'
r('ip: if else',(RPF,BODY,'''	var buf strings.Builder
	varIndex := 0

	for i := range rp.parts {
		part := &rp.parts[i]
		if part.tok == plain {
			buf.WriteString(part.lit)
			continue
		}
		if part.tok != toVar {
			continue
		}
		to, err := rp.mapVar(p, part.lit, part.usedVar, word, m, varIndex)
		if err != nil {
			return "", err
		}
		buf.WriteString(to)
		varIndex++
	}
	return buf.String(), nil
}

func (rp *RPattern) mapVar(p *Pattern, name string, to []string, word string, m []int, n int) (string, error) {
	switch {
	case n >= len(p.usedVars):
		return "", errors.New("mapped vars have different length")
	case len(m) < (n+2)*2:
		return "", errors.New("mapped var not captured")
	case len(to) == 0:
		return "", errors.Errorf("mapped var %s is empty", name)
	}
	val := captured(word, m, n+1)
	for i, v := range p.usedVars[n] {
		if v == val {
			return to[i%len(to)], nil
		}
	}
	return "", errors.Errorf("%#v is not in mapped var", val)
}

'''),(RPF,'	"bytes"\n',''),(RPF,'	"sort"\n','	"sort"\n	"strings"\n'))
r('ip: plus equals',(RPF,BODY,'''	out := ""
	varIndex := 0
	for _, part := range rp.parts {
		if part.tok == plain {
			out += part.lit
		} else if part.tok == toVar {
			if varIndex >= len(p.usedVars) {
				return "", errors.New("mapped vars have different length")
			}
			if len(m) < (varIndex+2)*2 {
				return "", errors.New("mapped var not captured")
			}
			if len(part.usedVar) == 0 {
				return "", errors.Errorf("mapped var %s is empty", part.lit)
			}
			fromVal := captured(word, m, varIndex+1)
			i := indexOf(fromVal, p.usedVars[varIndex])
			if i < 0 {
				return "", errors.Errorf("%#v is not in mapped var", fromVal)
			}
			out += part.usedVar[i%len(part.usedVar)]
			varIndex++
		}
	}
	return out, nil
}

'''),(RPF,'	"bytes"\n',''))
r('ip: found flag',(RPF,'''			i := indexOf(fromVal, fromVar)
			if i == -1 {
				return "", errors.Errorf("%#v is not in mapped var", fromVal)
			}
''','''			i, found := 0, false
			for j, v := range fromVar {
				if v == fromVal {
					i, found = j, true
					break
				}
			}
			if !found {
				return "", errors.Errorf("%#v is not in mapped var", fromVal)
			}
'''))
r('ip: parts joined',(RPF,BODY,BODY.replace("var buf bytes.Buffer","texts := make([]string, 0, len(rp.parts))").replace("buf.WriteString(part.lit)","texts = append(texts, part.lit)").replace("buf.WriteString(toVal)","texts = append(texts, toVal)").replace("buf.String()",'strings.Join(texts, "")')),(RPF,'	"bytes"\n',''),(RPF,'	"sort"\n','	"sort"\n	"strings"\n'))
r('ip: err var',(RPF,'''			if varIndex > len(p.usedVars)-1 {
				err := errors.New("mapped vars have different length")
				return "", err
			}
			if len(m) < (varIndex+2)*2 {
				return "", errors.New("mapped var not captured")
			}
			if len(part.usedVar) == 0 {
				return "", errors.Errorf("mapped var %s is empty", part.lit)
			}
''','''			var err error
			if varIndex > len(p.usedVars)-1 {
				err = errors.New("mapped vars have different length")
			} else if len(m) < (varIndex+2)*2 {
				err = errors.New("mapped var not captured")
			} else if len(part.usedVar) == 0 {
				err = errors.Errorf("mapped var %s is empty", part.lit)
			}
			if err != nil {
				return "", err
			}
'''))
r('ip: default case',(RPF,"			buf.WriteString(toVal)\n			varIndex++\n","			buf.WriteString(toVal)\n			varIndex++\n\n		default:\n			panic(\"unknown part\")\n"))
r('ip: named results',(RPF,''') (string, error) {
	var buf bytes.Buffer
	varIndex := 0
''',''') (result string, err error) {
	var buf bytes.Buffer
	varIndex := 0
'''),(RPF,'''				err := errors.New("mapped vars have different length")
				return "", err
''','''				err = errors.New("mapped vars have different length")
				return
'''),(RPF,"	return buf.String(), nil\n}\n\n// Letters returns the set of natural letters used in the expression in\n// ascending","	result = buf.String()\n	return\n}\n\n// Letters returns the set of natural letters used in the expression in\n// ascending"))
r('ip: search from end indexOf2',('pkg/hre/util.go','''	for i, _val := range vals {
		if _val == val {
			return i
		}
	}
	return -1''','''	at := -1
	for i, v := range vals {
		if v == val && at == -1 {
			at = i
		}
	}
	return at'''))
r('ip: no matched part helper',(RPF,"			buf.WriteString(part.lit)\n","			writePlain(&buf, part)\n"),(RPF,None,"\nfunc writePlain(buf *bytes.Buffer, part rPart) {\n	buf.WriteString(part.lit)\n}\n"))
MAINS=open('/repo/cmd/hangulize/main.go').read()
RD=MAINS[MAINS.index("		reader := bufio.NewReader(os.Stdin)"):MAINS.index("	} else {\n		for _, word := range args[1:]")]
r('rd: bytes',(C+'main.go',RD,'''		reader := bufio.NewReader(os.Stdin)
		for {
			line, err := reader.ReadBytes('\\n')
			if word := strings.TrimSpace(string(line)); word != "" {
				ch <- word
			}
			if err != nil {
				break
			}
		}
'''))
r('rd: trim bytes',(C+'main.go',RD,'''		reader := bufio.NewReader(os.Stdin)
		for {
			line, err := reader.ReadBytes('\\n')
			line = bytes.TrimSpace(line)
			if len(line) != 0 {
				ch <- string(line)
			}
			if err == io.EOF {
				break
			}
			if err != nil {
				panic(err)
			}
		}
'''),(C+'main.go','	"bufio"\n','	"bufio"\n	"bytes"\n	"io"\n'),(C+'main.go','	"strings"\n',''))
r('rd: eof check',(C+'main.go',RD,'''		reader := bufio.NewReader(os.Stdin)
		for done := false; !done; {
			word, err := reader.ReadString('\\n')
			done = err != nil
			if word = strings.TrimSpace(word); len(word) > 0 {
				ch <- word
			}
		}
'''))
r('rd: all',(C+'main.go',RD,'''		data, _ := io.ReadAll(os.Stdin)
		for _, line := range strings.Split(string(data), "\\n") {
			if word := strings.TrimSpace(line); word != "" {
				ch <- word
			}
		}
'''),(C+'main.go','	"bufio"\n','	"io"\n'))
