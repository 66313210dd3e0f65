exec(open('/tmp/ref3.py').read().split("\nr('")[0])
NL='''		if except[let] || !script.Is(let) {
			buf.WriteRune(let)
		} else {
			buf.WriteRune(script.Normalize(let))
		}
'''
r('norm: continue twice',(P,NL,'''		if except[let] {
			buf.WriteRune(let)
			continue
		}
		if script.Is(let) {
			let = script.Normalize(let)
		}
		buf.WriteRune(let)
'''))
r('norm: keep var',(P,NL,'''		keep := except[let] || !script.Is(let)
		if !keep {
			let = script.Normalize(let)
		}
		buf.WriteRune(let)
'''))
r('norm: helper method',(P,NL,'''		buf.WriteRune(p.normalizeLetter(let))
'''),(P,'// 3. Partition','''func (p procedure) normalizeLetter(let rune) rune {
	if p.spec.normLetters[let] || !p.spec.script.Is(let) {
		return let
	}
	return p.spec.script.Normalize(let)
}

// 3. Partition'''),(P,'	except := p.spec.normLetters\n\n','\n'),(P,'	script := p.spec.script\n\n	var buf','	var buf'))
r('norm: bool helper',(P,NL,'''		if p.leaveAlone(let) {
			buf.WriteRune(let)
			continue
		}
		buf.WriteRune(script.Normalize(let))
'''),(P,'// 3. Partition','''func (p procedure) leaveAlone(let rune) bool {
	_, known := p.spec.normLetters[let]
	return known && p.spec.normLetters[let] || !p.spec.script.Is(let)
}

// 3. Partition'''),(P,'	except := p.spec.normLetters\n\n','\n'))
r('norm: runes index',(P,'	for _, let := range word {\n		if except','	rs := []rune(word)\n	for k := 0; k < len(rs); k++ {\n		let := rs[k]\n		if except'))
r('norm: switch',(P,NL,'''		switch {
		case except[let], !script.Is(let):
		default:
			let = script.Normalize(let)
		}
		buf.WriteRune(let)
'''))
PT='''		switch {
		case p.spec.script.Is(let):
			fallthrough
		case p.spec.puncts[let]:
			fallthrough
		case hasSpaceOnly(letStr):
			rep.Replace(i, i+len(letStr), letStr)
		}
'''
r('part: if or',(P,PT,'''		if p.spec.script.Is(let) || p.spec.puncts[let] || hasSpaceOnly(letStr) {
			rep.Replace(i, i+len(letStr), letStr)
		}
'''))
r('part: continue',(P,PT,'''		if !p.spec.script.Is(let) && !p.spec.puncts[let] && !hasSpaceOnly(letStr) {
			continue
		}
		rep.Replace(i, i+len(letStr), letStr)
'''))
r('part: helper',(P,PT,'''		if p.meaningful(let) {
			rep.Replace(i, i+len(letStr), letStr)
		}
'''),(P,'// 4. Rewrite','''func (p procedure) meaningful(let rune) bool {
	if p.spec.script.Is(let) {
		return true
	}
	if p.spec.puncts[let] {
		return true
	}
	return unicode.IsSpace(let)
}

// 4. Rewrite'''))
r('part: bool var',(P,PT,'''		meaningful := p.spec.script.Is(let)
		if !meaningful {
			meaningful = p.spec.puncts[let]
		}
		if !meaningful {
			meaningful = hasSpaceOnly(letStr)
		}
		if meaningful {
			rep.Replace(i, i+len(letStr), letStr)
		}
'''))
r('part: puncts alias',(P,'	rep := subword.NewReplacer(word, 0, 1)\n','	rep := subword.NewReplacer(word, 0, 1)\n	marks := p.spec.puncts\n'),(P,'p.spec.puncts[let]:','marks[let]:'))
r('syll: len guard',(P,'			buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n			jamoBuf.Reset()\n','			if jamoBuf.Len() > 0 {\n				buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n				jamoBuf.Reset()\n			}\n'),(P,'	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n\n	word := buf','	if jamoBuf.Len() > 0 {\n		buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))\n	}\n\n	word := buf'))
r('proc: empty subwords',(P,'	var swBuf subword.Builder\n\n	traceRecordSubword','	if len(p.spec.Rewrite) == 0 {\n		return subwords\n	}\n	var swBuf subword.Builder\n\n	traceRecordSubword'))
r('proc: empty normalize map',(P,'	word = p.spec.normReplacer.Replace(word)\n','	if len(p.spec.Normalize) > 0 {\n		word = p.spec.normReplacer.Replace(word)\n	}\n'))
r('replaceby loop',(RP,'	r.repls = append(r.repls, repls...)','	for _, repl := range repls {\n		r.repls = append(r.repls, repl)\n	}'))
r('replaceby single',(RP,'	r.ReplaceBy(NewReplacement(start, stop, word))','	r.repls = append(r.repls, Replacement{Start: start, Stop: stop, Word: word})'))
r('replaceby early',(RP,'	r.repls = append(r.repls, repls...)','	if len(repls) == 0 {\n		return\n	}\n	r.repls = append(r.repls, repls...)'))
r('replaceby index',(RP,'	r.repls = append(r.repls, repls...)','	grown := r.repls\n	for i := 0; i < len(repls); i++ {\n		grown = append(grown, repls[i])\n	}\n	r.repls = grown'))
