B=[]
def b(name,checks,*edits): B.append((name,checks,list(edits)))
P='pkg/hsl/parser.go';L='pkg/hsl/lexer.go';S='pkg/hsl/structures.go';Q='spec.go'
b('k: All capped','C27',(S,"	return pair.Right()\n","	r := pair.Right()\n	if len(r) > 8 {\n		r = r[:8]\n	}\n	return r\n"))
b('k: pairs tail','C27',(S,"	return s.pairs\n","	if n := len(s.pairs); n > 0 && s.pairs[n-1].l == \"\" {\n		return s.pairs[:n-1]\n	}\n	return s.pairs\n"))
b('k: map one','C27',(S,"		m[pair.Left()] = pair.Right()","		m[pair.Left()] = pair.Right()[:1]"))
