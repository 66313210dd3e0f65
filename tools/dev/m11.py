M=[]
P='procedure.go'; R='rule.go'; S='internal/subword/replace.go'; H='pkg/hre/pattern.go'
def m(n,ed,rc=1,c='C11'): M.append((n,c,ed,rc))
m('mask runes',[(P,'len(repl.Word))','len([]rune(repl.Word)))')])
m('mask runecount',[(P,'len(repl.Word))','utf8.RuneCountInString(repl.Word))'),(P,'	"unicode"\n','	"unicode"\n	"unicode/utf8"\n')])
m('mask stop-start',[(P,'len(repl.Word))','repl.Stop-repl.Start)')])
m('mask two',[(P,'"\\x00", len','"\\x00\\x00", len')])
m('mask space',[(P,'"\\x00", len','" ", len')])
m('mask make ok',[(P,'strings.Repeat("\\x00", len(repl.Word))','string(make([]byte, len(repl.Word)))')],0)
m('mask helper ok',[(P,'strings.Repeat("\\x00", len(repl.Word))','maskOf(repl.Word)'),(P,'// 5. Tr','func maskOf(s string) string { return strings.Repeat("\\x00", len(s)) }\n\n// 5. Tr')],0)
m('mask helper bug',[(P,'strings.Repeat("\\x00", len(repl.Word))','maskOf(repl.Word)'),(P,'// 5. Tr','func maskOf(s string) string { return strings.Repeat("\\x00", len([]rune(s))) }\n\n// 5. Tr')])
m('mask map',[(P,'strings.Repeat("\\x00", len(repl.Word))','strings.Map(func(rune) rune { return 0 }, repl.Word)')])
m('mask skip empty',[(P,'				nulls := str','				if repl.Word == "" {\n					continue\n				}\n				nulls := str')])
m('mask break',[(P,'				dummy.Replace(repl.Start, repl.Stop, nulls)\n','				dummy.Replace(repl.Start, repl.Stop, nulls)\n				if repl.Stop == len(word) {\n					break\n				}\n')])
m('mask shift',[(P,'dummy.Replace(repl.Start, repl.Stop','dummy.Replace(repl.Start, repl.Stop-1')])
m('mask start start',[(P,'dummy.Replace(repl.Start, repl.Stop','dummy.Replace(repl.Start, repl.Start')])
m('mask stop by len',[(P,'dummy.Replace(repl.Start, repl.Stop','dummy.Replace(repl.Start, repl.Start+len(repl.Word)')],None)
m('rep.String traced only',[(P,'			traceSubword(i, rep.String(), rule)\n','			if p.tracer != nil {\n				traceSubword(i, rep.String(), rule)\n			}\n')])
m('rep.String once empty',[(P,'			traceSubword(i, rep.String(), rule)\n','			if len(repls) > 0 {\n				traceSubword(i, rep.String(), rule)\n			}\n')],0)
m('rep.String if one',[(P,'			traceSubword(i, rep.String(), rule)\n','			if len(repls) != 1 {\n				traceSubword(i, rep.String(), rule)\n			}\n')])
m('dummy read before mask',[(P,'			word = dummy.String()\n			trace','			trace'),(P,'			rep.ReplaceBy(repls...)\n\n			for','			rep.ReplaceBy(repls...)\n			word = dummy.String()\n\n			for')])
m('no dummy if short',[(P,'			for _, repl := range repls {\n				nulls','			if rule.ID == 7 {\n				traceSubword(i, rep.String(), rule)\n				continue\n			}\n			for _, repl := range repls {\n				nulls')])
m('dummy mid string',[(P,'				dummy.Replace(repl.Start, repl.Stop, nulls)\n','				dummy.Replace(repl.Start, repl.Stop, nulls)\n				word = dummy.String()\n')])
m('search other text',[(P,'			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n\n','			repls := rule.replacements(strings.ToLower(word))\n			rep.ReplaceBy(repls...)\n\n')])
m('search trimmed',[(P,'			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n			word = rep','			repls := rule.replacements(strings.TrimSpace(word))\n			rep.ReplaceBy(repls...)\n			word = rep')])
m('find lower',[(R,'r.From.Find(word, -1)','r.From.Find(strings.ToLower(word), -1)'),(R,'	"fmt"\n','	"fmt"\n	"strings"\n')])
m('rule both lower',[(R,'	rep := subword.NewReplacer(word, 0, 0)\n	repls := r.replacements(word)\n','	rep := subword.NewReplacer(word, 0, 0)\n	repls := r.replacements(strings.ToLower(word))\n'),(R,'	"fmt"\n','	"fmt"\n	"strings"\n')])
m('start shift',[(R,'start, stop := m[0], m[1]','start, stop := m[0], m[1]\n		start, stop = start+0, stop+1')])
m('stop m3',[(R,'start, stop := m[0], m[1]','start, stop := m[0], m[len(m)-1]')],None)
m('stop 3',[(R,'start, stop := m[0], m[1]','start, stop := m[0], m[1]\n		if len(m) > 4 {\n			stop = m[3]\n		}')],None)
m('swap order repls in batch helper ok',[(P,'			for _, repl := range repls {\n				nulls := strings.Repeat("\\x00", len(repl.Word))\n				dummy.Replace(repl.Start, repl.Stop, nulls)\n			}\n','			for j := range repls {\n				repl := repls[j]\n				dummy.ReplaceBy(subword.NewReplacement(repl.Start, repl.Stop, strings.Repeat("\\x00", len(repl.Word))))\n			}\n')],0)
m('mask helper fn ok',[(P,'			for _, repl := range repls {\n				nulls := strings.Repeat("\\x00", len(repl.Word))\n				dummy.Replace(repl.Start, repl.Stop, nulls)\n			}\n','			hide(dummy, repls)\n'),(P,'// 5. Tr','func hide(d *subword.Replacer, repls []subword.Replacement) {\n	for _, r := range repls {\n		d.Replace(r.Start, r.Stop, strings.Repeat("\\x00", len(r.Word)))\n	}\n}\n\n// 5. Tr')],0)
m('mask helper fn bug',[(P,'			for _, repl := range repls {\n				nulls := strings.Repeat("\\x00", len(repl.Word))\n				dummy.Replace(repl.Start, repl.Stop, nulls)\n			}\n','			hide(dummy, repls)\n'),(P,'// 5. Tr','func hide(d *subword.Replacer, repls []subword.Replacement) {\n	for _, r := range repls[1:] {\n		d.Replace(r.Start, r.Stop, strings.Repeat("\\x00", len(r.Word)))\n	}\n}\n\n// 5. Tr')])
m('masked list ok',[(P,'			for _, repl := range repls {\n				nulls := strings.Repeat("\\x00", len(repl.Word))\n				dummy.Replace(repl.Start, repl.Stop, nulls)\n			}\n','			var masks []subword.Replacement\n			for _, repl := range repls {\n				masks = append(masks, subword.NewReplacement(repl.Start, repl.Stop, strings.Repeat("\\x00", len(repl.Word))))\n			}\n			dummy.ReplaceBy(masks...)\n')],0)
m('masked list bug',[(P,'			for _, repl := range repls {\n				nulls := strings.Repeat("\\x00", len(repl.Word))\n				dummy.Replace(repl.Start, repl.Stop, nulls)\n			}\n','			var masks []subword.Replacement\n			for _, repl := range repls {\n				if repl.Word == "" {\n					continue\n				}\n				masks = append(masks, subword.NewReplacement(repl.Start, repl.Stop, strings.Repeat("\\x00", len(repl.Word))))\n			}\n			dummy.ReplaceBy(masks...)\n')])
m('commit offset len',[(S,'		offset = stop\n','		_ = stop\n		offset = start + len(word)\n')])
m('commit offset start',[(S,'		offset = stop\n','		offset = stop\n		if word == "" {\n			offset = start\n		}\n')])
m('commit levels runes',[(S,'for i := 0; i < len(word); i++ {\n			levels','for range word {\n			levels')])
m('commit levels runecount',[(S,'for i := 0; i < len(word); i++ {\n			levels','for i := 0; i < len([]rune(word)); i++ {\n			levels')])
m('commit levels diff',[(S,'for i := 0; i < len(word); i++ {\n			levels','for i := 0; i < stop-start; i++ {\n			levels')])
m('commit no tail',[(S,'	buf.WriteString(r.word[offset:])\n','	if offset == 0 || len(r.word) < 99 {\n		buf.WriteString(r.word[offset:])\n	}\n')])
m('commit fast ok',[(S,'	var buf bytes.Buffer\n	var levels []int\n','	if len(r.repls) == 0 {\n		return\n	}\n	var buf bytes.Buffer\n	var levels []int\n')],0)
m('commit levels tail',[(S,'	levels = append(levels, r.levels[offset:]...)\n','	if offset < len(r.levels) {\n		levels = append(levels, r.levels[offset:]...)\n	}\n')],0)
m('commit skip equal',[(S,'		// before repl','		if r.word[start:stop] == word {\n			continue\n		}\n		// before repl')],0)
m('commit skip overlapping ok',[(S,'		// before repl','		if start < offset {\n			continue\n		}\n		// before repl')],0)
m('commit index ok',[(S,'	for _, repl := range r.repls {\n','	for k := range r.repls {\n		repl := r.repls[k]\n')],0)
m('commit ptr ok',[(S,'	for _, repl := range r.repls {\n','	for k := range r.repls {\n		repl := &r.repls[k]\n')],None)
m('commit before skip',[(S,'		buf.WriteString(r.word[offset:start])\n','		if start-offset > 1 {\n			buf.WriteString(r.word[offset:start])\n		}\n')])
m('commit builder ok',[(S,'	var buf bytes.Buffer\n	var levels []int\n','	var buf strings.Builder\n	levels := make([]int, 0, len(r.levels))\n'),(S,'	"fmt"\n','	"fmt"\n	"strings"\n')],0)
m('commit bytes ok',[(S,'	var buf bytes.Buffer\n	var levels []int\n','	var out []byte\n	var levels []int\n'),(S,'buf.WriteString(r.word[offset:start])','out = append(out, r.word[offset:start]...)'),(S,'		buf.WriteString(word)\n		for','		out = append(out, word...)\n		for'),(S,'	buf.WriteString(r.word[offset:])','	out = append(out, r.word[offset:]...)'),(S,'r.word = buf.String()','r.word = string(out)')],0)
m('commit bytes bug',[(S,'	var buf bytes.Buffer\n	var levels []int\n','	var out []byte\n	var levels []int\n'),(S,'buf.WriteString(r.word[offset:start])','out = append(out, r.word[offset:start]...)'),(S,'		buf.WriteString(word)\n		for','		out = append(out, word...)\n		for'),(S,'	buf.WriteString(r.word[offset:])','	out = append(out, r.word[offset:]...)'),(S,'r.word = buf.String()','r.word = string(out)'),(S,'offset = stop','_ = stop\n		offset = start + len(word)')])
m('commit fill helper ok',[(S,'		for i := 0; i < len(word); i++ {\n			levels = append(levels, r.nextLevel)\n		}\n','		levels = append(levels, filled(len(word), r.nextLevel)...)\n'),(S,'// commit','func filled(n, level int) []int {\n	out := make([]int, n)\n	for i := range out {\n		out[i] = level\n	}\n	return out\n}\n\n// commit')],0)
m('pattern replace cur',[(H,'		cur = stop\n	}\n	buf','		cur = start + len(repl)\n	}\n	buf')])
m('pattern replace cur 2',[(H,'		if err == nil {\n			buf.WriteString(repl)\n','		if err == nil {\n			buf.WriteString(repl)\n			if repl == "" {\n				continue\n			}\n')])
m('pattern tail',[(H,'	buf.WriteString(word[cur:])\n','	if cur > 0 {\n		buf.WriteString(word[cur:])\n	} else {\n		return word\n	}\n')],0)
m('pattern tail bug',[(H,'	buf.WriteString(word[cur:])\n','	if cur+1 < len(word) {\n		buf.WriteString(word[cur:])\n	}\n')])
m('find shift part',[(H,'		for i := range m {\n			if m[i] != -1 {','		for i := range m {\n			if m[i] != -1 && i < 20 {')])
m('find shift part 2',[(H,'		for i := range m {\n			if m[i] != -1 {','		for i := 0; i < len(m) && i < 12; i++ {\n			if m[i] != -1 {')])
m('find shift >0',[(H,'			if m[i] != -1 {','			if m[i] > 0 {')])
m('find shift >=0 ok',[(H,'			if m[i] != -1 {','			if m[i] >= 0 {')],0)
m('find shift other',[(H,'				m[i] += offset\n','				m[i] += length - len(word[offset:]) \n')],None)
m('find helper ok',[(H,'		for i := range m {\n			if m[i] != -1 {\n				m[i] += offset\n			}\n		}\n','		shiftAll(m, offset)\n'),(H,'// Find sear','func shiftAll(m []int, by int) {\n	for i := range m {\n		if m[i] != -1 {\n			m[i] += by\n		}\n	}\n}\n\n// Find sear')],0)
m('batch all first',[(P,'		for _, rule := range p.spec.Rewrite {\n			repls := rule.replacements(word)\n			rep.ReplaceBy(repls...)\n			word = rep.String()\n','		for _, rule := range p.spec.Rewrite {\n			repls := rule.replacements(word)\n			word = rep.String()\n			rep.ReplaceBy(repls...)\n')])
m('rewrite lazily',[(P,'			word = rep.String()\n\n			traceRecord','			if rule.ID%2 == 0 {\n				word = rep.String()\n			}\n\n			traceRecord')])
m('wrap struct ok',[(P,'		dummy := subword.NewReplacer(word, 0, 0)\n','		both := struct{ rep, dummy *subword.Replacer }{rep, subword.NewReplacer(word, 0, 0)}\n'),(P,'dummy.Replace(repl','both.dummy.Replace(repl'),(P,'word = dummy.String()','word = both.dummy.String()')],0)
m('dummy reset if',[(P,'			word = dummy.String()\n			trace','			if len(repls) > 0 {\n				word = dummy.String()\n			}\n			trace')],0)
m('partition i+1',[(P,'rep.Replace(i, i+len(letStr), letStr)','rep.Replace(i, i+1, letStr)')],None)
m('mask from orig',[(P,'dummy := subword.NewReplacer(word, 0, 0)','dummy := subword.NewReplacer(strings.ToLower(word), 0, 0)')],None)
m('rule replace only if',[(R,'	rep.ReplaceBy(repls...)\n	return rep.String()','	if len(repls) == 0 {\n		return word\n	}\n	rep.ReplaceBy(repls...)\n	return rep.String()')],0)

m('commit guard ok',[(S,'		buf.WriteString(r.word[offset:start])\n','		if offset < start {\n			buf.WriteString(r.word[offset:start])\n		}\n')],0)
m('commit guard2 ok',[(S,'		buf.WriteString(r.word[offset:start])\n		levels = append(levels, r.levels[offset:start]...)\n','		if start > offset {\n			buf.WriteString(r.word[offset:start])\n			levels = append(levels, r.levels[offset:start]...)\n		}\n')],0)
m('pattern guard ok',[(H,'		buf.WriteString(word[cur:start])\n','		if start != cur {\n			buf.WriteString(word[cur:start])\n		}\n')],0)
m('commit guard bug',[(S,'		buf.WriteString(r.word[offset:start])\n		levels = append(levels, r.levels[offset:start]...)\n','		if offset > 0 {\n			buf.WriteString(r.word[offset:start])\n			levels = append(levels, r.levels[offset:start]...)\n		}\n')])
