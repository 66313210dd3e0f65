L='''			for j := 0; j < i; j++ {
				unuseTranslit(ts[j].Scheme())
			}
'''
F='translit/translit.go'
M=[
('all','C07',[(F,L,'''			_ = i; for _, u := range ts {
				unuseTranslit(u.Scheme())
			}
''')],1),
('incl','C07',[(F,'j < i','j <= i')],1),
('from1','C07',[(F,'j := 0','j := 1')],1),
('noroll','C07',[(F,L,'			_ = unuseTranslit\n			_ = i\n')],1),
('true','C07',[(F,'			return false','			return i > 0')],1),
('wrongreg','C07',[(F,"unuseTranslit(ts[j]","_ = unuseTranslit; hangulize.UnuseTranslit(ts[j]")],1),
('wrongreg2','C07',[(F,'		unuseTranslit = h[0].UnuseTranslit\n','')],1),
('continue','C07',[(F,'''		if ok := useTranslit(t); !ok {
''','''		if t.Scheme() == "furigana" && i > 0 {
			continue
		}
		if ok := useTranslit(t); !ok {
''')],1),
('half','C07',[(F,L,L.replace('unuseT','if j%2 == 0 { unuseT').replace('())','()) }'))],1),
('slice','C07',[(F,L,'''			for _, u := range ts[:i] {
				unuseTranslit(u.Scheme())
			}
''')],0),
('desc','C07',[(F,L,'''			for j := i - 1; j >= 0; j-- {
				unuseTranslit(ts[j].Scheme())
			}
''')],0),
('list','C07',[(F,L,'''			for _, u := range done {
				unuseTranslit(u.Scheme())
			}
'''),(F,'''	for i, t''','''	var done []hangulize.Translit
	for _, t'''),(F,'''			return false
		}
''','''			return false
		}
		done = append(done, t)
''')],0),
('listbad','C07',[(F,L,'''			for _, u := range done {
				unuseTranslit(u.Scheme())
			}
'''),(F,'''	for i, t''','''	var done []hangulize.Translit
	for _, t'''),(F,'''		if ok := use''','''		done = append(done, t)
		if ok := use''')],1),
('helper','C07',[(F,L,'			rollback(ts[:i], unuseTranslit)\n'),(F,'// Install imp','''func rollback(ts []hangulize.Translit, f func(string) bool) {
	for k := range ts {
		f(ts[k].Scheme())
	}
}

// Install imp''')],0),
('clos','C07',[(F,'useTranslit = h[0].UseTranslit','useTranslit = func(t hangulize.Translit) bool { return h[0].UseTranslit(t) }')],0),
('sub','C07',[(F,'ts := Translits()','ts := Translits()[1:]')],1),
('defer','C07',[(F,'''	ts := Translits()
''','''	ts := Translits()
	n := 0
	ok := true
	defer func() {
		if !ok {
			for _, t := range ts[:n] {
				unuseTranslit(t.Scheme())
			}
		}
	}()
'''),(F,'''	for i, t := range ts {
		if ok := useTranslit(t); !ok {
'''+L,'''	for i, t := range ts {
		n = i
		if ok = useTranslit(t); !ok {
''')],0),
]
