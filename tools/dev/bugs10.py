B=[]
def b(name,checks,*edits): B.append((name,checks,list(edits)))
PT='pkg/hre/pattern.go';RU='rule.go'
b('c: replace empty','C21 C11',(PT,'		if err == nil {\n			buf','		if err == nil && (repl != "" || n < 0) {\n			buf'))
b('c: repls skip empty','C21 C11 C16',(RU,'		repls = append(repls, subword','		if repl == "" {\n			continue\n		}\n		repls = append(repls, subword'))
b('c: repls skip long','C21 C11 C16',(RU,'		repls = append(repls, subword','		if len(repl) > 64 {\n			continue\n		}\n		repls = append(repls, subword'))
b('c: harmless empty','C21 C11',(PT,'			buf.WriteString(repl)\n','			if repl != "" {\n				buf.WriteString(repl)\n			}\n'))
b('c: harmless same','C21 C11',(PT,'		if err == nil {\n			buf','		if err == nil && repl != word[start:stop] {\n			buf'))
b('c: harmless order','C21 C11',(PT,'		if err == nil {\n			buf.WriteString(repl)\n		} else {\n			buf.WriteString(word[start:stop])\n		}\n','		if err != nil {\n			repl = word[start:stop]\n		}\n		buf.WriteString(repl)\n'))
b('c: harmless concat','C21 C11',(PT,'		buf.WriteString(word[cur:start])\n',''),(PT,'			buf.WriteString(repl)\n		} else {\n			buf.WriteString(word[start:stop])\n		}\n','			buf.WriteString(word[cur:start] + repl)\n		} else {\n			buf.WriteString(word[cur:stop])\n		}\n'))
