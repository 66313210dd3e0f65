P='procedure.go';B='internal/subword/builder.go';R='internal/subword/replace.go'
SYL='''		if sw.Level == 0 {
			buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
			jamoBuf.Reset()

			buf.WriteString(sw.Word)
			continue
		}
		jamoBuf.WriteString(sw.Word)
	}
	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
'''
DIS='''		if sw.Level == 1 {
			if hasSpace(sw.Word) {
				swBuf.Write(subword.New(" ", 1))
			}
			continue
		}
		swBuf.Write(sw)
'''
MRG='''	for _, sw := range b.subwords {
		if sw.Level != mergingLevel && mergingLevel != -1 {
			// Keep the merged sw.
			merged := New(buf.String(), mergingLevel)
			subwords = append(subwords, merged)

			// Open a new one.
			buf.Reset()
		}

		buf.WriteString(sw.Word)
		mergingLevel = sw.Level
	}

	merged := New(buf.String(), mergingLevel)
	subwords = append(subwords, merged)
'''
SPL='''	for i, ch := range r.word {
		if r.levels[i] != level {
			subwords = append(subwords, New(buf.String(), level))
			level = r.levels[i]
			buf.Reset()
		}
		buf.WriteRune(ch)
	}
	subwords = append(subwords, New(buf.String(), level))
'''
PAR='''		switch {
		case p.spec.script.Is(let):
			fallthrough
		case p.spec.puncts[let]:
			fallthrough
		case hasSpaceOnly(letStr):
			rep.Replace(i, i+len(letStr), letStr)
		}
'''
C="C19"
def syl(n,new,rc=1): return (n,C,[(P,SYL,new)],rc)
def dis(n,new,rc=1): return (n,C,[(P,DIS,new)],rc)
def mrg(n,new,rc=1): return (n,C,[(B,MRG,new)],rc)
def spl(n,new,rc=1): return (n,C,[(R,SPL,new)],rc)
def par(n,new,rc=1): return (n,C,[(P,PAR,new)],rc)
M=[
syl('syl no final',SYL.replace('''	}
	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
''','''	}
''')),
syl('syl final if',SYL.replace('''	}
	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
''','''	}
	if len(subwords) > 1 || buf.Len() == 0 {
		buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
	}
''')),
syl('syl no flush at 0',SYL.replace('''			buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
			jamoBuf.Reset()

''','',1)),
syl('syl no reset',SYL.replace('			jamoBuf.Reset()\n','')),
syl('syl order',SYL.replace('''			buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
			jamoBuf.Reset()

			buf.WriteString(sw.Word)
''','''			buf.WriteString(sw.Word)
			buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
			jamoBuf.Reset()
''')),
syl('syl trim',SYL.replace('buf.WriteString(sw.Word)\n			continue','buf.WriteString(strings.TrimSpace(sw.Word))\n			continue')),
syl('syl skip space',SYL.replace('buf.WriteString(sw.Word)\n			continue','if !hasSpaceOnly(sw.Word) {\n				buf.WriteString(sw.Word)\n			}\n			continue')),
syl('syl level <0',SYL.replace('sw.Level == 0','sw.Level < 0')),
syl('syl level 0 long only',SYL.replace('sw.Level == 0','sw.Level == 0 && len(sw.Word) > 1')),
syl('syl guard flush ok',SYL.replace('''			buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
			jamoBuf.Reset()

''','''			if jamoBuf.Len() > 0 {
				buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
				jamoBuf.Reset()
			}

'''),0),
syl('syl guard flush >1',SYL.replace('''			buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
			jamoBuf.Reset()

''','''			if jamoBuf.Len() > 1 {
				buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
				jamoBuf.Reset()
			}

''')),
syl('syl closure ok','''		if sw.Level != 0 {
			jamoBuf.WriteString(sw.Word)
			continue
		}
		flush()
		buf.WriteString(sw.Word)
	}
	flush()
''',None),
('syl helper ok',C,[(P,SYL,'''		if sw.Level == 0 {
			flushJamo(&buf, &jamoBuf)
			buf.WriteString(sw.Word)
			continue
		}
		jamoBuf.WriteString(sw.Word)
	}
	flushJamo(&buf, &jamoBuf)
'''),(P,'// 6. Syllabify','''func flushJamo(buf, jamoBuf *bytes.Buffer) {
	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
	jamoBuf.Reset()
}

// 6. Syllabify''')],0),
('syl helper bad',C,[(P,SYL,'''		if sw.Level == 0 {
			flushJamo(&buf, &jamoBuf)
			buf.WriteString(sw.Word)
			continue
		}
		jamoBuf.WriteString(sw.Word)
	}
	flushJamo(&buf, &jamoBuf)
'''),(P,'// 6. Syllabify','''func flushJamo(buf, jamoBuf *bytes.Buffer) {
	if jamoBuf.Len() < 3 {
		jamoBuf.Reset()
		return
	}
	buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
	jamoBuf.Reset()
}

// 6. Syllabify''')],1),
('syl closure ok',C,[(P,SYL,'''		if sw.Level != 0 {
			jamoBuf.WriteString(sw.Word)
			continue
		}
		flush()
		buf.WriteString(sw.Word)
	}
	flush()
'''),(P,'''	var jamoBuf bytes.Buffer
''','''	var jamoBuf bytes.Buffer
	flush := func() {
		buf.WriteString(jamo.ComposeHangul(jamoBuf.String()))
		jamoBuf.Reset()
	}
''')],0),
('syl index ok',C,[(P,'''	for _, sw := range subwords {
		// Don't touch''','''	for i := 0; i < len(subwords); i++ {
		sw := subwords[i]
		// Don't touch''')],0),
('syl index -1',C,[(P,'''	for _, sw := range subwords {
		// Don't touch''','''	for i := 0; i < len(subwords)-1; i++ {
		sw := subwords[i]
		// Don't touch''')],1),
('syl concat ok',C,[(P,'	var buf bytes.Buffer\n	var jamoBuf bytes.Buffer\n','	var buf strings.Builder\n	var jamoBuf strings.Builder\n')],0),
dis('dis <=1',DIS.replace('== 1','<= 1')),
dis('dis != 2',DIS.replace('== 1','!= 2')),
dis('dis >= 1',DIS.replace('== 1','>= 1')),
dis('dis short',DIS.replace('''		swBuf.Write(sw)
''','''		if sw.Level == 0 && hasSpaceOnly(sw.Word) {
			continue
		}
		swBuf.Write(sw)
''')),
dis('dis level1',DIS.replace('''		swBuf.Write(sw)
''','''		swBuf.Write(subword.New(sw.Word, 2))
''')),
dis('dis switch ok','''		switch sw.Level {
		case 1:
			if hasSpace(sw.Word) {
				swBuf.Write(subword.New(" ", 1))
			}
		default:
			swBuf.Write(sw)
		}
''',0),
dis('dis if ok','''		if sw.Level != 1 {
			swBuf.Write(sw)
		} else if hasSpace(sw.Word) {
			swBuf.Write(subword.New(" ", 1))
		}
''',0),
dis('dis break','''		if sw.Level == 1 {
			if hasSpace(sw.Word) {
				swBuf.Write(subword.New(" ", 1))
			}
			break
		}
		swBuf.Write(sw)
'''),
('dis no reset',C,[(P,'	swBuf.Reset()\n\n	for','	for')],1),
('dis reset first',C,[(P,'	subwords = swBuf.Subwords()\n	swBuf.Reset()\n','	swBuf.Reset()\n	subwords = swBuf.Subwords()\n')],1),
('dis new buf ok',C,[(P,'	swBuf.Reset()\n\n	for _, sw','	var kept subword.Builder\n	for _, sw'),(P,'''				swBuf.Write(subword.New(" ", 1))
			}
			continue
		}
		swBuf.Write(sw)
	}

	return swBuf.Subwords()
''','''				kept.Write(subword.New(" ", 1))
			}
			continue
		}
		kept.Write(sw)
	}

	return kept.Subwords()
''')],0),
('dis helper ok',C,[(P,'''	subwords = swBuf.Subwords()
	swBuf.Reset()

	for _, sw := range subwords {
'''+DIS+'''	}

	return swBuf.Subwords()
}
''','''	return discard(swBuf.Subwords())
}

func discard(subwords []subword.Subword) []subword.Subword {
	var swBuf subword.Builder
	for _, sw := range subwords {
'''+DIS+'''	}
	return swBuf.Subwords()
}
''')],0),
('dis helper bad',C,[(P,'''	subwords = swBuf.Subwords()
	swBuf.Reset()

	for _, sw := range subwords {
'''+DIS+'''	}

	return swBuf.Subwords()
}
''','''	return discard(swBuf.Subwords())
}

func discard(subwords []subword.Subword) []subword.Subword {
	var swBuf subword.Builder
	for _, sw := range subwords {
'''+DIS.replace('== 1','< 2')+'''	}
	return swBuf.Subwords()
}
''')],1),
('tr 0 dropped',C,[(P,'''			swBuf.Write(sw)
			continue
		}

		word :=''','''			if i > 0 || len(subwords) == 1 {
				swBuf.Write(sw)
			}
			continue
		}

		word :=''')],1),
('tr 0 trimmed',C,[(P,'''			swBuf.Write(sw)
			continue
		}

		word :=''','''			swBuf.Write(subword.New(strings.TrimRight(sw.Word, "-"), 0))
			continue
		}

		word :=''')],1),
('tr 0 new ok',C,[(P,'''			swBuf.Write(sw)
			continue
		}

		word :=''','''			swBuf.Write(subword.New(sw.Word, sw.Level))
			continue
		}

		word :=''')],0),
('tr 0 new const ok',C,[(P,'''			swBuf.Write(sw)
			continue
		}

		word :=''','''			swBuf.Write(subword.New(sw.Word, 0))
			continue
		}

		word :=''')],0),
('tr 0 level 1',C,[(P,'''			swBuf.Write(sw)
			continue
		}

		word :=''','''			swBuf.Write(subword.New(sw.Word, 1))
			continue
		}

		word :=''')],1),
('tr level 1 const ok',C,[(P,'''rep := subword.NewReplacer(word, level, 2)''','''rep := subword.NewReplacer(word, 1, 2)
		_ = level''')],None),
('tr level 2',C,[(P,'''rep := subword.NewReplacer(word, level, 2)''','''rep := subword.NewReplacer(word, 2, 2)
		_ = level''')],1),
('tr twice',C,[(P,'''			swBuf.Write(sw)
			continue
		}

		word :=''','''			swBuf.Write(sw)
		}

		word :=''')],1),
('rw level 1',C,[(P,'rep := subword.NewReplacer(word, level, 1)','rep := subword.NewReplacer(word, 1, 1)\n		_ = level')],1),
('rw inline ok',C,[(P,'''		level := sw.Level

		rep := subword.NewReplacer(word, level, 1)''','''
		rep := subword.NewReplacer(word, sw.Level, 1)''')],0),
('rw skip empty ok',C,[(P,'''		word := sw.Word
		level := sw.Level

		rep := subword.NewReplacer(word, level, 1)''','''		word := sw.Word
		level := sw.Level
		if word == "" {
			continue
		}

		rep := subword.NewReplacer(word, level, 1)''')],0),
('rw skip 0 ok',C,[(P,'''		word := sw.Word
		level := sw.Level

		rep := subword.NewReplacer(word, level, 1)''','''		word := sw.Word
		level := sw.Level
		if level == 0 && len(p.spec.Rewrite) == 0 {
			swBuf.Write(sw)
			continue
		}

		rep := subword.NewReplacer(word, level, 1)''')],0),
('rw skip',C,[(P,'''		word := sw.Word
		level := sw.Level

		rep := subword.NewReplacer(word, level, 1)''','''		word := sw.Word
		level := sw.Level
		if level == 0 && len(p.spec.Rewrite) == 0 {
			continue
		}

		rep := subword.NewReplacer(word, level, 1)''')],1),
('rw lower',C,[(P,'''		word := sw.Word
		level := sw.Level

		rep := subword.NewReplacer(word, level, 1)''','''		word := strings.ToLower(sw.Word)
		level := sw.Level

		rep := subword.NewReplacer(word, level, 1)''')],1),
('rw only if rules',C,[(P,'''		swBuf.Write(rep.Subwords()...)
	}

	return swBuf.Subwords()''','''		if len(p.spec.Rewrite) > 0 || i == 0 {
			swBuf.Write(rep.Subwords()...)
		}
	}

	return swBuf.Subwords()''')],1),
mrg('mrg no last',MRG[:MRG.index('	merged := New(buf.String(), mergingLevel)\n	subwords')]),
mrg('mrg last if',MRG.replace('''	merged := New(buf.String(), mergingLevel)
	subwords = append(subwords, merged)
''','''	if mergingLevel > 0 {
		merged := New(buf.String(), mergingLevel)
		subwords = append(subwords, merged)
	}
''')),
mrg('mrg last if len ok',MRG.replace('''	merged := New(buf.String(), mergingLevel)
	subwords = append(subwords, merged)
''','''	if buf.Len() > 0 {
		merged := New(buf.String(), mergingLevel)
		subwords = append(subwords, merged)
	}
''')),
mrg('mrg no reset',MRG.replace('			buf.Reset()\n','')),
mrg('mrg level',MRG.replace('merged := New(buf.String(), mergingLevel)\n			subwords','merged := New(buf.String(), sw.Level)\n			subwords')),
mrg('mrg any',MRG.replace('sw.Level != mergingLevel && mergingLevel != -1','sw.Level > mergingLevel && mergingLevel != -1')),
mrg('mrg 0',MRG.replace('mergingLevel != -1','mergingLevel > 0')),
mrg('mrg write first',MRG.replace('''
		buf.WriteString(sw.Word)
		mergingLevel''','''
		mergingLevel''').replace('''	for _, sw := range b.subwords {
''','''	for _, sw := range b.subwords {
		buf.WriteString(sw.Word)
''')),
mrg('mrg index ok',MRG.replace('for _, sw := range b.subwords {','for i := range b.subwords {\n		sw := b.subwords[i]'),0),
mrg('mrg nested ok','''	for _, sw := range b.subwords {
		if mergingLevel != -1 {
			if sw.Level != mergingLevel {
				subwords = append(subwords, New(buf.String(), mergingLevel))
				buf.Reset()
			}
		}
		mergingLevel = sw.Level
		buf.WriteString(sw.Word)
	}
	return append(subwords, New(buf.String(), mergingLevel))
''',0),
mrg('mrg last elt ok','''	_ = mergingLevel
	for i, sw := range b.subwords {
		if i > 0 && b.subwords[i-1].Level != sw.Level {
			subwords = append(subwords, New(buf.String(), b.subwords[i-1].Level))
			buf.Reset()
		}
		buf.WriteString(sw.Word)
	}
	subwords = append(subwords, New(buf.String(), b.subwords[len(b.subwords)-1].Level))
''',0),
mrg('mrg lists ok','''	_, _ = mergingLevel, buf
	for _, sw := range b.subwords {
		if n := len(subwords); n > 0 && subwords[n-1].Level == sw.Level {
			subwords[n-1].Word += sw.Word
			continue
		}
		subwords = append(subwords, sw)
	}
''',None),
spl('spl no last',SPL.replace('	subwords = append(subwords, New(buf.String(), level))\n','',2)) if False else spl('spl no last',SPL[:SPL.rindex('	subwords = append')]),
spl('spl last if',SPL.replace('''	}
	subwords = append(subwords, New(buf.String(), level))
''','''	}
	if len(subwords) == 0 || level > 0 {
		subwords = append(subwords, New(buf.String(), level))
	}
''')),
spl('spl no reset',SPL.replace('			buf.Reset()\n','')),
spl('spl level first',SPL.replace('''			subwords = append(subwords, New(buf.String(), level))
			level = r.levels[i]
''','''			level = r.levels[i]
			subwords = append(subwords, New(buf.String(), level))
''')),
spl('spl >',SPL.replace('r.levels[i] != level','r.levels[i] > level')),
spl('spl skip null',SPL.replace('		buf.WriteRune(ch)\n','		if ch != 0 {\n			buf.WriteRune(ch)\n		}\n')),
spl('spl else',SPL.replace('''			buf.Reset()
		}
		buf.WriteRune(ch)
''','''			buf.Reset()
			continue
		}
		buf.WriteRune(ch)
''')),
spl('spl slices ok','''	_ = buf
	start := 0
	for i := range r.word {
		if r.levels[i] != level {
			subwords = append(subwords, New(r.word[start:i], level))
			level = r.levels[i]
			start = i
		}
	}
	subwords = append(subwords, New(r.word[start:], level))
''',0),
spl('spl slices bad','''	_ = buf
	start := 0
	for i := range r.word {
		if r.levels[i] != level {
			subwords = append(subwords, New(r.word[start:i], level))
			level = r.levels[i]
			start = i
		}
	}
	if level > 0 {
		subwords = append(subwords, New(r.word[start:], level))
	}
'''),
par('par letter',PAR.replace('p.spec.script.Is(let)','p.spec.script.Is(let) || unicode.IsLetter(let)')),
par('par punct',PAR.replace('p.spec.puncts[let]','unicode.IsPunct(let)')),
par('par not',PAR.replace('case hasSpaceOnly(letStr):','case !unicode.IsDigit(let):')),
par('par default',PAR.replace('case hasSpaceOnly(letStr):','default:')),
par('par merged ok','''		if p.spec.script.Is(let) || p.spec.puncts[let] || hasSpaceOnly(letStr) {
			rep.Replace(i, i+len(letStr), letStr)
		}
''',0),
par('par unicode ok','''		if p.spec.script.Is(let) || p.spec.puncts[let] || unicode.IsSpace(let) {
			rep.Replace(i, i+len(letStr), letStr)
		}
''',0),
par('par continue ok','''		if !p.spec.script.Is(let) && !p.spec.puncts[let] && !hasSpaceOnly(letStr) {
			continue
		}
		rep.Replace(i, i+len(letStr), letStr)
''',0),
par('par bool ok','''		known := p.spec.script.Is(let)
		known = known || p.spec.puncts[let]
		if !known {
			known = hasSpaceOnly(letStr)
		}
		if known {
			rep.Replace(i, i+len(letStr), letStr)
		}
''',0),
('par helper ok',C,[(P,PAR,'''		if p.known(let) {
			rep.Replace(i, i+len(letStr), letStr)
		}
'''),(P,'// 4. Rewrite','''func (p procedure) known(let rune) bool {
	return p.spec.script.Is(let) || p.spec.puncts[let] || hasSpaceOnly(string(let))
}

// 4. Rewrite''')],0),
('par helper bad',C,[(P,PAR,'''		if p.known(let) {
			rep.Replace(i, i+len(letStr), letStr)
		}
'''),(P,'// 4. Rewrite','''func (p procedure) known(let rune) bool {
	return p.spec.script.Is(let) || p.spec.puncts[let] || hasSpaceOnly(string(let)) || unicode.IsControl(let)
}

// 4. Rewrite''')],1),
par('par lower',PAR.replace('letStr)\n		}','strings.ToLower(letStr))\n		}')),
('par level 1',C,[(P,'rep := subword.NewReplacer(word, 0, 1)','rep := subword.NewReplacer(word, 1, 1)')],1),
]
