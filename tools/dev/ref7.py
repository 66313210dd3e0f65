exec(open('/tmp/ref3.py').read().split("\nr('")[0])
RU='rule.go';PT='pkg/hre/pattern.go'
RT=open('/repo/'+RU).read(); PTT=open('/repo/'+PT).read()
B1=RT[RT.index("		start, stop := m[0], m[1]\n"):RT.index("	}\n\n	return repls")]
W1=RT[RT.index("	var repls []subword.Replacement\n"):RT.index("	return repls\n")]
W2=PTT[PTT.index("	var buf bytes.Buffer\n	cur := 0\n"):]
assert W2.count('Interpolate')==1
def ru(name,new,extra=''):
    e=[(RU,W1,new)]
    if extra: e.append((RU,None,extra))
    r(name,*e)
def pt(name,new,extra='',imp=()):
    r(name,(PT,W2,new+"}\n"+extra),*imp)
ru('u: helper ok','''	var repls []subword.Replacement

	for _, m := range r.From.Find(word, -1) {
		if repl, ok := r.replacement(word, m); ok {
			repls = append(repls, repl)
		}
	}

''','''
func (r Rule) replacement(word string, m []int) (subword.Replacement, bool) {
	repl, err := r.To.Interpolate(r.From, word, m)
	if err != nil {
		return subword.Replacement{}, false
	}
	return subword.NewReplacement(m[0], m[1], repl), true
}
''')
ru('u: helper err','''	var repls []subword.Replacement

	for _, m := range r.From.Find(word, -1) {
		repl, err := r.replacement(word, m)
		if err != nil {
			continue
		}
		repls = append(repls, repl)
	}

''','''
func (r Rule) replacement(word string, m []int) (repl subword.Replacement, err error) {
	text, err := r.To.Interpolate(r.From, word, m)
	if err == nil {
		repl = subword.NewReplacement(m[0], m[1], text)
	}
	return
}
''')
ru('u: prealloc','''	matches := r.From.Find(word, -1)
	repls := make([]subword.Replacement, 0, len(matches))
	for i := range matches {
		m := matches[i]
		if repl, err := r.To.Interpolate(r.From, word, m); err == nil {
			repls = append(repls, subword.NewReplacement(m[0], m[1], repl))
		}
	}

''')
ru('u: closure','''	var repls []subword.Replacement
	add := func(m []int) {
		repl, err := r.To.Interpolate(r.From, word, m)
		if err != nil {
			return
		}
		repls = append(repls, subword.NewReplacement(m[0], m[1], repl))
	}
	for _, m := range r.From.Find(word, -1) {
		add(m)
	}

''')
ru('u: fixed slots','''	matches := r.From.Find(word, -1)
	repls := make([]subword.Replacement, len(matches))
	n := 0
	for _, m := range matches {
		repl, err := r.To.Interpolate(r.From, word, m)
		if err != nil {
			continue
		}
		repls[n] = subword.NewReplacement(m[0], m[1], repl)
		n++
	}
	repls = repls[:n]

''')
ru('u: struct result','''	var repls []subword.Replacement
	for _, m := range r.From.Find(word, -1) {
		var res struct {
			text string
			err  error
		}
		res.text, res.err = r.To.Interpolate(r.From, word, m)
		if res.err != nil {
			continue
		}
		rep := subword.NewReplacement(m[0], m[1], res.text)
		repls = append(repls, rep)
	}

''')
ru('u: two passes','''	matches := r.From.Find(word, -1)
	texts := make([]*string, len(matches))
	for i, m := range matches {
		if text, err := r.To.Interpolate(r.From, word, m); err == nil {
			texts[i] = &text
		}
	}
	var repls []subword.Replacement
	for i, m := range matches {
		if texts[i] != nil {
			repls = append(repls, subword.NewReplacement(m[0], m[1], *texts[i]))
		}
	}

''')
ru('u: literal','''	var repls []subword.Replacement
	for _, m := range r.From.Find(word, -1) {
		start, stop := m[0], m[1]
		repl, err := r.To.Interpolate(r.From, word, m)
		switch {
		case err != nil:
			// left
		default:
			repls = append(repls, subword.Replacement{Start: start, Stop: stop, Word: repl})
		}
	}

''')
ru('u: count loop','''	var repls []subword.Replacement
	matches := r.From.Find(word, -1)
	for i := 0; i < len(matches); i++ {
		m := matches[i]
		if repl, err := r.To.Interpolate(r.From, word, m); err != nil {
			continue
		} else {
			repls = append(repls, subword.NewReplacement(m[0], m[1], repl))
		}
	}

''')
pt('v: out var','''	var buf bytes.Buffer
	cur := 0

	for _, m := range p.Find(word, n) {
		start, stop := m[0], m[1]
		out := word[start:stop]
		if repl, err := rpat.Interpolate(p, word, m); err == nil {
			out = repl
		}
		buf.WriteString(word[cur:start])
		buf.WriteString(out)
		cur = stop
	}
	buf.WriteString(word[cur:])

	return buf.String()
''')
pt('v: concat','''	out := ""
	cur := 0
	for _, m := range p.Find(word, n) {
		repl, err := rpat.Interpolate(p, word, m)
		if err != nil {
			continue
		}
		out += word[cur:m[0]] + repl
		cur = m[1]
	}
	return out + word[cur:]
''','',[(PT,'	"bytes"\n','')])
pt('v: bytes append','''	var out []byte
	cur := 0
	for _, m := range p.Find(word, n) {
		repl, err := rpat.Interpolate(p, word, m)
		if err != nil {
			repl = word[m[0]:m[1]]
		}
		out = append(out, word[cur:m[0]]...)
		out = append(out, repl...)
		cur = m[1]
	}
	return string(append(out, word[cur:]...))
''','',[(PT,'	"bytes"\n','')])
pt('v: parts join','''	var parts []string
	cur := 0
	for _, m := range p.Find(word, n) {
		repl, err := rpat.Interpolate(p, word, m)
		if err != nil {
			repl = word[m[0]:m[1]]
		}
		parts = append(parts, word[cur:m[0]], repl)
		cur = m[1]
	}
	parts = append(parts, word[cur:])
	return strings.Join(parts, "")
''','',[(PT,'	"bytes"\n',''),(PT,'	"sort"\n','	"sort"\n	"strings"\n')])
pt('v: expand helper','''	var buf bytes.Buffer
	cur := 0
	for _, m := range p.Find(word, n) {
		buf.WriteString(word[cur:m[0]])
		buf.WriteString(p.expand(rpat, word, m))
		cur = m[1]
	}
	buf.WriteString(word[cur:])
	return buf.String()
''','''
// expand is what a match becomes.
func (p *Pattern) expand(rpat *RPattern, word string, m []int) string {
	repl, err := rpat.Interpolate(p, word, m)
	if err != nil {
		return word[m[0]:m[1]]
	}
	return repl
}
''')
pt('v: skip failed','''	var buf bytes.Buffer
	cur := 0
	for _, m := range p.Find(word, n) {
		repl, err := rpat.Interpolate(p, word, m)
		if err != nil {
			continue
		}
		buf.WriteString(word[cur:m[0]])
		buf.WriteString(repl)
		cur = m[1]
	}
	buf.WriteString(word[cur:])
	return buf.String()
''')
pt('v: any changes','''	var buf bytes.Buffer
	cur := 0
	changed := false
	for _, m := range p.Find(word, n) {
		repl, err := rpat.Interpolate(p, word, m)
		if err == nil {
			changed = true
			buf.WriteString(word[cur:m[0]])
			buf.WriteString(repl)
			cur = m[1]
		}
	}
	if !changed {
		return word
	}
	buf.WriteString(word[cur:])
	return buf.String()
''')
pt('v: recursion','''	var buf bytes.Buffer
	cur := 0
	matches := p.Find(word, n)
	for len(matches) > 0 {
		m := matches[0]
		matches = matches[1:]
		if repl, err := rpat.Interpolate(p, word, m); err == nil {
			buf.WriteString(word[cur:m[0]] + repl)
		} else {
			buf.WriteString(word[cur:m[1]])
		}
		cur = m[1]
	}
	buf.WriteString(word[cur:])
	return buf.String()
''')
pt('v: fprint','''	var buf bytes.Buffer
	cur := 0
	for _, m := range p.Find(word, n) {
		start, stop := m[0], m[1]
		repl, err := rpat.Interpolate(p, word, m)
		if err != nil {
			repl = word[start:stop]
		}
		fmt.Fprintf(&buf, "%s%s", word[cur:start], repl)
		cur = stop
	}
	fmt.Fprint(&buf, word[cur:])
	return buf.String()
''')
