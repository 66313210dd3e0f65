J='internal/jamo/jamo.go'
M=[
('no-final','C17',[(J,'''	// Write the final letter.
	if prevScore != -1 {
		c.write()
	}
''','')],1),
('final-tail-only','C17',[(J,'''	// Write the final letter.
	if prevScore != -1 {''','''	// Write the final letter.
	if prevScore > lead {''')],1),
('lt','C17',[(J,'if score <= prevScore {','if score < prevScore {')],1),
('le1','C17',[(J,'if score <= prevScore {','if score <= prevScore && prevScore != tail {')],1),
('noflush-composed','C17',[(J,'''		if isComposed {
			c.write()
''','''		if isComposed {
''')],1),
('noflush-composed-lead','C17',[(J,'''		if isComposed {
			c.write()
''','''		if isComposed {
			if prevScore > lead {
				c.write()
			}
''')],1),
('score-composed','C17',[(J,'''			if c.lmt[tail] == 0 {
				score = medial
			} else {
				score = tail
			}

			continue''','''			score = medial

			continue''')],1),
('score-composed2','C17',[(J,'''			if c.lmt[tail] == 0 {
				score = medial
			} else {
				score = tail
			}

			continue''','''			score = tail

			continue''')],0),
('noflush-other','C17',[(J,'''			if prevScore != -1 {
				c.write()
			}

			c.buf''','''			c.buf''')],1),
('noflush-other2','C17',[(J,'''			if prevScore != -1 {
				c.write()
			}

			c.buf''','''			if prevScore > lead {
				c.write()
			}

			c.buf''')],1),
('score-1','C17',[(J,'prevScore = -1\n','score = -1\n')],0),
('drop-other','C17',[(J,'''			c.buf.WriteRune(ch)
			prevScore''','''			prevScore''')],1),
('swap-other','C17',[(J,'''			if prevScore != -1 {
				c.write()
			}

			c.buf.WriteRune(ch)
''','''			c.buf.WriteRune(ch)
			if prevScore != -1 {
				c.write()
			}

''')],1),
('noclear','C17',[(J,'''	// Clear.
	c.lmt = [3]rune{}
''','''	// Clear.
	c.lmt[lead], c.lmt[medial] = 0, 0
''')],1),
('noclear-lead','C17',[(J,'''	// Clear.
	c.lmt = [3]rune{}
''','''	// Clear.
	c.lmt[medial], c.lmt[tail] = 0, 0
''')],1),
('nolead','C17',[(J,'''	if c.lmt == [3]rune{} {''','''	if c.lmt[lead] == 0 {''')],1),
('nomedial','C17',[(J,'''	if c.lmt == [3]rune{} {''','''	if c.lmt[lead] == 0 && c.lmt[medial] == 0 {''')],1),
('fill','C17',[(J,"c.lmt[medial] = 'ㅡ'","c.lmt[medial] = 'ㅣ'")],1),
('joinswap','C17',[(J,'hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail])','hangul.Join(c.lmt[tail], c.lmt[medial], c.lmt[lead])')],1),
('jointail0','C17',[(J,'hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail])','hangul.Join(c.lmt[lead], c.lmt[medial], 0)')],1),
('splitdrop','C17',[(J,'c.lmt[lead], c.lmt[medial], c.lmt[tail] = hangul.Split(ch)','c.lmt[lead], c.lmt[medial], _ = hangul.Split(ch)')],1),
('istail','C17',[(J,'''		} else if isTail {
			score = tail
''','''		} else if isTail && prevScore >= medial {
			score = tail
''')],1),
('moeum-tail','C17',[(J,'''		if isMoeum {
			score = medial
		} else if isTail {''','''		if isMoeum && !isTail {
			score = medial
		} else if isTail {''')],1),
('hyphen-sticky','C17',[(J,'''		return ch, isTail, nil
''','''		if isTail && ch == 'x' {
			return '-', false, nil
		}
		return ch, isTail, nil
''')],1),
('raw-jamo','C17',[(J,'isHangul = hangul.IsHangul(ch)','isHangul = hangul.IsHangul(ch) && ch >= 0xac00')],1),
('err-early','C17',[(J,'''		if err != nil {
			break
		}

		isHangul''','''		if err != nil {
			return c.buf.String()
		}

		isHangul''')],1),
# refactors
('helper','C17',[(J,'''		// If cursor should be moved forward, flush the buffered letter.
		if score <= prevScore {
			c.write()
		}

		// Buffer the Jamo.
		if score != -1 {
			c.lmt[score] = ch
		}
''','''		c.put(ch, score, prevScore)
'''),(J,'''// Compose converts decomposed Jamo phonemes to composed Hangul syllables.
func''','''func (c *composer) put(ch rune, score, prevScore int) {
	if score > prevScore {
		c.lmt[score] = ch
		return
	}
	c.write()
	c.lmt[score] = ch
}

// Compose converts decomposed Jamo phonemes to composed Hangul syllables.
func''')],0),
('switch','C17',[(J,'''		if isMoeum {
			score = medial
		} else if isTail {
			score = tail
		} else {
			score = lead
		}
''','''		switch {
		case isMoeum:
			score = medial
		case isTail:
			score = tail
		default:
			score = lead
		}
''')],0),
('builder','C17',[(J,'buf bytes.Buffer // The','buf strings.Builder // The'),(J,'	"bytes"\n','')],0),
('fields','C17',[(J,'''	if c.lmt == [3]rune{} {
		return
	}
''','''	if c.lmt[lead] == 0 && c.lmt[medial] == 0 && c.lmt[tail] == 0 {
		return
	}
''')],0),
('fillloop','C17',[(J,'''	// Fill missing Jamo.
	if c.lmt[lead] == 0 {
		c.lmt[lead] = 'ㅇ'
	}
	if c.lmt[medial] == 0 {
		c.lmt[medial] = 'ㅡ'
	}
''','''	for i, fill := range []rune{'ㅇ', 'ㅡ'} {
		if c.lmt[i] == 0 {
			c.lmt[i] = fill
		}
	}
''')],0),
('fillloop2','C17',[(J,'''	// Fill missing Jamo.
	if c.lmt[lead] == 0 {
		c.lmt[lead] = 'ㅇ'
	}
	if c.lmt[medial] == 0 {
		c.lmt[medial] = 'ㅡ'
	}
''','''	for i, fill := range [2]rune{'ㅇ', 'ㅡ'} {
		if c.lmt[i] == 0 {
			c.lmt[i] = fill
		}
	}
''')],0),
('clearloop','C17',[(J,'''	c.lmt = [3]rune{}
}''','''	for i := range c.lmt {
		c.lmt[i] = 0
	}
}''')],0),
('struct','C17',[(J,'lmt [3]rune      // Buffered','lead, medial, tail rune // Buffered'),
 (J,'c.lmt == [3]rune{}','c.lead == 0 && c.medial == 0 && c.tail == 0'),
 (J,'''	if c.lmt[lead] == 0 {
		c.lmt[lead] = 'ㅇ'
	}
	if c.lmt[medial] == 0 {
		c.lmt[medial] = 'ㅡ'
	}
''','''	if c.lead == 0 {
		c.lead = 'ㅇ'
	}
	if c.medial == 0 {
		c.medial = 'ㅡ'
	}
'''),(J,'hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail])','hangul.Join(c.lead, c.medial, c.tail)'),
 (J,'	c.lmt = [3]rune{}\n','	c.lead, c.medial, c.tail = 0, 0, 0\n'),
 (J,'c.lmt[lead], c.lmt[medial], c.lmt[tail] = hangul.Split(ch)','c.lead, c.medial, c.tail = hangul.Split(ch)'),
 (J,'if c.lmt[tail] == 0 {','if c.tail == 0 {'),
 (J,'''			c.lmt[score] = ch
''','''			switch score {
			case lead:
				c.lead = ch
			case medial:
				c.medial = ch
			default:
				c.tail = ch
			}
''')],0),
('rangestring','C17',[(J,'''	r   *bufio.Reader
''','''	s   []rune
'''),(J,'''		r: bufio.NewReader(strings.NewReader(word)),
''','''		s: []rune(word),
'''),(J,'	"bufio"\n',''),(J,'	"strings"\n',''),
 (J,'''	for {
		ch, _, err := c.r.ReadRune()

		if err != nil {
			return 0, false, err
		}
''','''	for {
		if len(c.s) == 0 {
			return 0, false, errEnd
		}
		ch := c.s[0]
		c.s = c.s[1:]
'''),(J,'''const (
	lead ''','''var errEnd = errors.New("end")

const (
	lead '''),(J,'	"bytes"\n','	"bytes"\n	"errors"\n')],0),
('rangestring-bug-unfollowed','C17',[(J,'''	r   *bufio.Reader
''','''	s   []rune
'''),(J,'''		r: bufio.NewReader(strings.NewReader(word)),
''','''		s: []rune(word),
'''),(J,'	"bufio"\n',''),(J,'	"strings"\n',''),
 (J,'''	for {
		ch, _, err := c.r.ReadRune()

		if err != nil {
			return 0, false, err
		}
''','''	for {
		if len(c.s) == 0 {
			return 0, false, errEnd
		}
		ch := c.s[0]
		c.s = c.s[1:]
'''),(J,'''const (
	lead ''','''var errEnd = errors.New("end")

const (
	lead '''),(J,'	"bytes"\n','	"bytes"\n	"errors"\n'),(J,'if score <= prevScore {','if score < prevScore {')],1),
('strreader','C17',[(J,'	r   *bufio.Reader','	r   *strings.Reader'),(J,'bufio.NewReader(strings.NewReader(word))','strings.NewReader(word)'),(J,'	"bufio"\n','')],0),
]
# a rewrite as one range loop
import re
src=open('/repo/internal/jamo/jamo.go').read()
a=src.index('func ComposeHangul'); 
REW='''func ComposeHangul(word string) string {
	var c composer
	last := -1
	mark := false
	for _, ch := range word {
		if ch == '-' {
			mark = true
			continue
		}
		isTail := mark
		mark = false
		if !hangul.IsHangul(ch) {
			c.write()
			last = -1
			c.buf.WriteRune(ch)
			continue
		}
		slot := lead
		switch {
		case hangul.IsMoeum(ch):
			slot = medial
		case hangul.IsJaeum(ch):
			if isTail {
				slot = tail
			}
		default:
			c.write()
			c.lmt[lead], c.lmt[medial], c.lmt[tail] = hangul.Split(ch)
			last = medial
			if c.lmt[tail] != 0 {
				last = tail
			}
			continue
		}
		if slot <= last {
			c.write()
		}
		c.lmt[slot] = ch
		last = slot
	}
	c.write()
	return c.buf.String()
}

const (
	lead   = 0
	medial = 1
	tail   = 2
)

type composer struct {
	buf bytes.Buffer
	lmt [3]rune
}

func (c *composer) write() {
	if c.lmt == [3]rune{} {
		return
	}
	if c.lmt[lead] == 0 {
		c.lmt[lead] = 'ㅇ'
	}
	if c.lmt[medial] == 0 {
		c.lmt[medial] = 'ㅡ'
	}
	c.buf.WriteRune(hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail]))
	c.lmt = [3]rune{}
}
'''
imp=[(J,'	"bufio"\n',''),(J,'	"strings"\n','')]
M+=[('rewrite','C17',imp+[(J,src[a:],REW)],0),
('rewrite-bug','C17',imp+[(J,src[a:],REW.replace('slot <= last','slot < last'))],1),
('rewrite-bug2','C17',imp+[(J,src[a:],REW.replace('''	}
	c.write()
	return c.buf''','''	}
	if last > lead {
		c.write()
	}
	return c.buf'''))],1),
('rewrite-runes','C17',imp+[(J,src[a:],REW.replace('for _, ch := range word {','for _, ch := range []rune(word) {'))],0),
('rewrite-runes-bug','C17',imp+[(J,src[a:],REW.replace('for _, ch := range word {','for _, ch := range []rune(word) {').replace('last = slot','last = lead'))],1),
('rewrite-runes-i','C17',imp+[(J,src[a:],REW.replace('for _, ch := range word {','rs := []rune(word)\n	for i := 0; i < len(rs); i++ {\n		ch := rs[i]'))],0),
('rewrite-out','C17',imp+[(J,src[a:],REW.replace('buf bytes.Buffer','buf []rune').replace('c.buf.WriteRune(ch)','c.buf = append(c.buf, ch)').replace('c.buf.WriteRune(hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail]))','c.buf = append(c.buf, hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail]))').replace('c.buf.String()','string(c.buf)')),(J,'	"bytes"\n','')],0),
('rewrite-str','C17',imp+[(J,src[a:],REW.replace('buf bytes.Buffer','buf string').replace('c.buf.WriteRune(ch)','c.buf += string(ch)').replace('c.buf.WriteRune(hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail]))','c.buf += string(hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail]))').replace('c.buf.String()','c.buf')),(J,'	"bytes"\n','')],0),
('rewrite-str-bug','C17',imp+[(J,src[a:],REW.replace('buf bytes.Buffer','buf string').replace('c.buf.WriteRune(ch)','c.buf += string(ch)').replace('c.buf.WriteRune(hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail]))','c.buf += string(hangul.Join(c.lmt[lead], c.lmt[medial], c.lmt[tail]))').replace('c.buf.String()','c.buf').replace('c.write()\n			last = -1','last = -1')),(J,'	"bytes"\n','')],1),
]
