P='pkg/hre/pattern.go';U='pkg/hre/util.go';W='pkg/hre/width.go';R='internal/subword/replace.go';B='internal/subword/builder.go';C='procedure.go';L='translit/furigana/longvowel.go';T='translit/furigana/typewriter.go'
utf=(P,'	"sort"\n','	"sort"\n	"unicode/utf8"\n')
utfr=(R,'	"fmt"\n','	"fmt"\n	"unicode/utf8"\n')
utfc=(C,'	"unicode"\n','	"unicode"\n	"unicode/utf8"\n')
def m(n,e,x=1): M.append((n,'C12',e,x))
M=[]
m('find-len',[utf,(P,'length := len(word)','length := utf8.RuneCountInString(word)')])
m('negb-bytes',[(P,'negBStart = shiftLeft(word, start, p.negBWidth+1)','negBStart = start - p.negBWidth - 1\n				if negBStart < 0 {\n					negBStart = 0\n				}')])
m('nega-bytes',[(P,'if p.negA.MatchString(word[stop:]) {','end := len(word)\n			if p.negAWidth >= 0 && stop+p.negAWidth < end {\n				end = stop + p.negAWidth\n			}\n			if p.negA.MatchString(word[stop:end]) {')])
m('nega-max',[(P,'if p.negA.MatchString(word[stop:]) {','if p.negA.MatchString(substr(word, stop, stop+p.negAWidth+1)) {')])
m('offset1',[(P,'offset = stop\n','offset = start + 1\n')])
m('shift1',[(U,'		_, size := utf8.DecodeLastRuneInString(s[:index])\n		index -= size\n','		index--\n'),(U,'	"unicode/utf8"\n','')],None)
m('shift1b',[(U,'		_, size := utf8.DecodeLastRuneInString(s[:index])\n		index -= size\n','		if utf8.ValidString(s) && len(s) > 0 && false {\n			return 0\n		}\n		index -= 1\n')],None)
m('shift-count',[(U,'	for ; letters > 0 && index > 0; letters-- {\n		_, size := utf8.DecodeLastRuneInString(s[:index])\n		index -= size\n	}\n	return index','	index -= utf8.RuneCountInString(s[:index]) - letters\n	return index')])
m('shift-size',[(U,'		index -= size\n','		index -= size\n		letters -= size - 1\n')],None)
m('substr',[(U,'	n := len(s)\n','	n := utf8.RuneCountInString(s)\n')])
m('width-lit',[(W,'		return len(re.Rune)\n','		return len(string(re.Rune))\n')])
m('width-class',[(W,'		// matches any character\n		return 1\n','		// matches any character\n		return utf8.UTFMax\n'),(W,'	"regexp/syntax"\n','	"regexp/syntax"\n	"unicode/utf8"\n')],None)
m('levels-make',[utfr,(R,'levels := make([]int, len(word))','levels := make([]int, utf8.RuneCountInString(word))')])
m('levels-loop',[utfr,(R,'for i := 0; i < len(word); i++ {\n			levels','for i := 0; i < utf8.RuneCountInString(word); i++ {\n			levels')])
m('levels-range',[(R,'for i := 0; i < len(word); i++ {\n			levels','for range word {\n			levels')])
m('levels-runes',[(R,'for i := 0; i < len(word); i++ {\n			levels','for range []rune(word) {\n			levels')])
m('sub-runes',[(R,'for i, ch := range r.word {','for i, ch := range []rune(r.word) {')])
m('sub-counter',[(R,'	for i, ch := range r.word {','	i := -1\n	for _, ch := range r.word {\n		i++')])
m('sub-bytes',[(R,'	for i, ch := range r.word {','	for i := 0; i < len(r.word); i++ {\n		ch := rune(r.word[i])')])
m('part-runes',[(C,'	for i, let := range word {\n		letStr','	for i, let := range []rune(word) {\n		letStr')])
m('part-plus1',[(C,'rep.Replace(i, i+len(letStr), letStr)','rep.Replace(i, i+1, letStr)')])
m('part-counter',[(C,'	for i, let := range word {\n		letStr','	i := -1\n	for _, let := range word {\n		i++\n		letStr')])
m('part-count',[utfc,(C,'rep.Replace(i, i+len(letStr), letStr)','rep.Replace(i, i+utf8.RuneCountInString(letStr), letStr)')])
m('loc-last',[(C,'last := len(chars) - 1','last := len(word) - 1')])
m('loc-range',[(C,'	for i, ch := range chars {\n		isPunct','	for i, ch := range word {\n		isPunct')])
m('loc-range2',[(C,'	for i, ch := range chars {\n		// Skip','	for i, ch := range word {\n		// Skip')])
m('long-len',[(T,'coreLen := utf8.RuneCountInString(str)','coreLen := len(str)'),(T,'	"unicode/utf8"\n','')])
m('long-i',[(L,'	i := 0\n	for _, ch := range word {','	for i, ch := range word {'),(L,'		prevCh = ch\n		i++\n','		prevCh = ch\n')])
m('long-count',[(L,'		prevCh = ch\n		i++\n','		prevCh = ch\n		i += len(string(ch))\n')])
m('long-buf',[(L,'if offset <= i {','if offset <= buf.Len() {'),(L,'	i := 0\n',''),(L,'		prevCh = ch\n		i++\n','		prevCh = ch\n')])
m('interp',[(P,'buf.WriteString(word[start:stop])','buf.WriteString(string([]rune(word)[start:stop]))')])
m('replace-runes',[(P,'	for _, m := range p.Find(word, n) {','	letters := []rune(word)\n	for _, m := range p.Find(word, n) {'),(P,'buf.WriteString(word[cur:start])','buf.WriteString(string(letters[cur:start]))')])
m('norm-bytes',[(C,'	for _, let := range word {\n		if except','	for i := range word {\n		let := rune(word[i])\n		if except')])
m('first1',[(R,'	level := r.levels[0]\n','	level := r.levels[0]\n	_ = r.word[:1]\n')])
m('tok',[(T,'	str := tok.Surface\n','	str := tok.Surface\n	if n := tok.End - tok.Start; n < len(str) {\n		str = str[:n]\n	}\n')])
# refactors
m('R min',[(U,'	if stop > n {\n		stop = n\n	}\n','	stop = least(stop, n)\n'),(U,'// shiftLeft','func least(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\n// shiftLeft'),(L,'		if offset <= i {','		if least(offset, i) == offset {'),(L,'// mergeLong','func least(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\n// mergeLong')],0)
m('R levels helper',[(R,'		for i := 0; i < len(word); i++ {\n			levels = append(levels, r.nextLevel)\n		}\n','		levels = append(levels, repeat(r.nextLevel, len(word))...)\n'),(R,'// commit applies','func repeat(level, n int) []int {\n	out := make([]int, n)\n	for i := range out {\n		out[i] = level\n	}\n	return out\n}\n\n// commit applies')],0)
m('R range bytes',[(R,'for i := 0; i < len(word); i++ {\n			levels','for range []byte(word) {\n			levels')],0)
m('R last level',[(R,'	subwords = append(subwords, New(buf.String(), level))\n\n	return','	subwords = append(subwords, New(buf.String(), r.levels[len(r.levels)-1]))\n\n	return')],0)
m('R cut',[(R,'	var buf bytes.Buffer\n\n	for i, ch := range r.word {\n		if r.levels[i] != level {\n			subwords = append(subwords, New(buf.String(), level))\n			level = r.levels[i]\n			buf.Reset()\n		}\n		buf.WriteRune(ch)\n	}\n	subwords = append(subwords, New(buf.String(), level))\n','	start := 0\n	for i := range r.word {\n		if r.levels[i] != level {\n			subwords = append(subwords, New(r.word[start:i], level))\n			level = r.levels[i]\n			start = i\n		}\n	}\n	subwords = append(subwords, New(r.word[start:], level))\n')],0)
m('R part runelen',[utfc,(C,'rep.Replace(i, i+len(letStr), letStr)','rep.Replace(i, i+utf8.RuneLen(let), letStr)')],None)
m('R ascii',[utf,(P,'	length := len(word)\n','	length := len(word)\n	if length == utf8.RuneCountInString(word) {\n		length = len(word)\n	}\n')],0)
m('R loc',[(C,'	last := len(chars) - 1\n',''),(C,'isSpace[last+1] = true','isSpace[len(chars)] = true')],0)
m('R loc bool',[(C,'isPunct := make(map[int]bool)','isPunct := make([]bool, len(chars))'),(C,'if isPunct[l] || isSpace[l]','if l >= 0 && isPunct[l] || isSpace[l]'),(C,'if isPunct[r] || isSpace[r]','if r < len(isPunct) && isPunct[r] || isSpace[r]')],0)
m('R long slice',[(L,'	i := 0\n	for _, ch := range word {','	for i, ch := range []rune(word) {'),(L,'		prevCh = ch\n		i++\n','		prevCh = ch\n')],0)
m('R core runes',[(T,'coreLen := utf8.RuneCountInString(str)','coreLen := len([]rune(str))'),(T,'	"unicode/utf8"\n','')],0)
m('R decode loop',[(L,'	for _, ch := range word {','	for pos := 0; pos < len(word); {\n		ch, size := utf8.DecodeRuneInString(word[pos:])\n		pos += size'),(L,'	"strings"\n','	"strings"\n	"unicode/utf8"\n')],0)
m('R shift utf8max',[(P,'negBStart = shiftLeft(word, start, p.negBWidth+1)','negBStart = start - (p.negBWidth+1)*4\n				if negBStart < 0 {\n					negBStart = 0\n				}')],0)
