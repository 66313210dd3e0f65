package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

// C10: the bundled specs.

// ---------------------------------------------------------------------------
// A reader of HSL, independent of the repository's.

type hslPair struct {
	left  string
	right []string
	arrow bool
	line  int
}

type hslFile struct {
	name  string
	secs  map[string][]hslPair
	kinds map[string]string
	bad   []string
}

type hslTok struct {
	k    string // s, nl, or the sign itself
	v    string
	line int
}

func lexHSL(src string) (out []hslTok, bad string) {
	rs := []rune(src)
	line := 1
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case c == utf8.RuneError:
			return out, fmt.Sprintf("line %d is not UTF-8", line)
		case c == '\n':
			out = append(out, hslTok{"nl", "", line})
			line++
			i++
		case unicode.IsSpace(c):
			i++
		case c == '_' || unicode.IsLetter(c):
			j := i
			for j < len(rs) && (rs[j] == '_' || unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j])) {
				j++
			}
			out = append(out, hslTok{"s", string(rs[i:j]), line})
			i = j
		case c == '"':
			var b strings.Builder
			from := line
			i++
			for {
				if i >= len(rs) {
					return out, fmt.Sprintf("the text in line %d is not terminated", from)
				}
				if rs[i] == '"' {
					break
				}
				if rs[i] == '\n' {
					return out, fmt.Sprintf("the text in line %d is not terminated in its line", from)
				}
				if rs[i] == '\\' && i+1 < len(rs) {
					i++
					if rs[i] != '"' && rs[i] != '\\' {
						b.WriteRune('\\')
					}
				}
				b.WriteRune(rs[i])
				i++
			}
			i++
			out = append(out, hslTok{"s", b.String(), from})
		case c == '#':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case c == '-' && i+1 < len(rs) && rs[i+1] == '>':
			out = append(out, hslTok{"->", "", line})
			i += 2
		case c == ':' || c == ',' || c == '=':
			out = append(out, hslTok{string(c), "", line})
			i++
		default:
			return out, fmt.Sprintf("line %d has an illegal %q", line, c)
		}
	}
	return out, ""
}

func readHSL(name, src string) *hslFile {
	f := &hslFile{name: name, secs: map[string][]hslPair{}, kinds: map[string]string{}}
	toks, bad := lexHSL(src)
	if bad != "" {
		f.bad = append(f.bad, bad)
		return f
	}
	sec, last := "", ""
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		switch t.k {
		case "s":
			last = t.v
		case ":":
			sec = last
		case "=", "->":
			if sec == "" {
				f.bad = append(f.bad, fmt.Sprintf("the pair in line %d is in no section", t.line))
				return f
			}
			p := hslPair{left: last, arrow: t.k == "->", line: t.line}
			for i+1 < len(toks) && toks[i+1].k != "nl" {
				i++
				switch toks[i].k {
				case "s":
					p.right = append(p.right, toks[i].v)
				case ",":
				default:
					f.bad = append(f.bad, fmt.Sprintf("line %d has a second %s", t.line, toks[i].k))
				}
			}
			if k, ok := f.kinds[sec]; ok && k != t.k {
				f.bad = append(f.bad, fmt.Sprintf("line %d mixes %s and %s in section %s", t.line, k, t.k, sec))
			}
			f.kinds[sec] = t.k
			if t.k == "=" {
				for _, q := range f.secs[sec] {
					if q.left == p.left {
						f.bad = append(f.bad, fmt.Sprintf("line %d defines %q of section %s again", t.line, p.left, sec))
					}
				}
			}
			f.secs[sec] = append(f.secs[sec], p)
		}
	}
	return f
}

func (f *hslFile) dict(sec, key string) []string {
	for _, p := range f.secs[sec] {
		if p.left == key {
			return p.right
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// HRE

var (
	hreVar    = regexp.MustCompile(`<(.+?)>`)
	hreAhead  = regexp.MustCompile(`(?:\{([^}]+)\})?(\$*)$`)
	hreBehind = regexp.MustCompile(`^(\^*)(?:\{([^}]+)\})?`)
	hreBrace  = regexp.MustCompile(`\{[^}]+\}`)
	hreLeft   = regexp.MustCompile(`\^+`)
	hreRight  = regexp.MustCompile(`\$+`)
)

func group(s string, m []int, n int) string {
	if m[2*n] < 0 {
		return ""
	}
	return s[m[2*n]:m[2*n+1]]
}

// canBeEmpty tells whether an expression may match the empty string.
func canBeEmpty(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpNoMatch:
		return false
	case syntax.OpLiteral:
		return len(re.Rune) == 0
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return false
	case syntax.OpCapture:
		return canBeEmpty(re.Sub[0])
	case syntax.OpStar, syntax.OpQuest:
		return true
	case syntax.OpPlus:
		return canBeEmpty(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min == 0 || canBeEmpty(re.Sub[0])
	case syntax.OpConcat:
		for _, s := range re.Sub {
			if !canBeEmpty(s) {
				return false
			}
		}
		return true
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if canBeEmpty(s) {
				return true
			}
		}
		return false
	}
	return true // empty, anchors
}

func unlimited(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpStar, syntax.OpPlus:
		return true
	case syntax.OpRepeat:
		if re.Max < 0 {
			return true
		}
	}
	for _, s := range re.Sub {
		if unlimited(s) {
			return true
		}
	}
	return false
}

// caps lists the capturing groups in order.
func caps(re *syntax.Regexp, out *[]*syntax.Regexp) {
	if re.Op == syntax.OpCapture {
		*out = append(*out, re)
	}
	for _, s := range re.Sub {
		caps(s, out)
	}
}

type hreRule struct {
	core    *syntax.Regexp
	coreSrc string
	negs    []*syntax.Regexp
	vars    []string // of the core
	looks   []string // variables of the lookbehind, which come first
	err     string
}

func readHRE(expr string, macros *strings.Replacer, vars map[string][]string) (h hreRule) {
	if expr == "" {
		h.err = "is empty"
		return
	}
	s := macros.Replace(expr)
	expand := func(s string, names *[]string) string {
		return hreVar.ReplaceAllStringFunc(s, func(v string) string {
			name := v[1 : len(v)-1]
			*names = append(*names, name)
			vals, ok := vars[name]
			if !ok {
				h.err = "uses the variable " + v + ", which is not defined"
			} else if len(vals) == 0 {
				h.err = "uses the variable " + v + ", which has no values"
			}
			var q []string
			for _, x := range vals {
				q = append(q, regexp.QuoteMeta(x))
			}
			return "(" + strings.Join(q, "|") + ")"
		})
	}
	m := hreAhead.FindStringSubmatchIndex(s)
	ahead, right := group(s, m, 1), group(s, m, 2)
	s = s[:m[0]]
	m = hreBehind.FindStringSubmatchIndex(s)
	behind, left := group(s, m, 2), group(s, m, 1)
	s = s[m[1]:]
	if hreBrace.MatchString(s) {
		h.err = "has a lookaround in the middle"
		return
	}
	_, _ = left, right
	var rest []string
	for _, l := range []string{behind, ahead} {
		names := &rest
		if l == behind {
			names = &h.looks
		}
		e := expand(l, names)
		if h.err != "" {
			return
		}
		if !strings.HasPrefix(e, "~") {
			if _, err := syntax.Parse(e, syntax.Perl); err != nil {
				h.err = "cannot be compiled: " + err.Error()
				return
			}
			continue
		}
		re, err := syntax.Parse(e[1:], syntax.Perl)
		if err != nil {
			h.err = "cannot be compiled: " + err.Error()
			return
		}
		h.negs = append(h.negs, re)
	}
	s = expand(s, &h.vars)
	if h.err != "" {
		return
	}
	edge := func(one, more string) func(string) string {
		return func(e string) string {
			if len(e) == 1 {
				return one
			}
			return more
		}
	}
	s = hreLeft.ReplaceAllStringFunc(s, edge(`(?:^|\s+|{})`, `^`))
	s = hreRight.ReplaceAllStringFunc(s, edge(`(?:$|\s+|{})`, `$`))
	h.coreSrc = s
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		h.err = "cannot be compiled: " + err.Error()
		return
	}
	h.core = re
	return
}

// ---------------------------------------------------------------------------

const (
	jamoLeads  = "ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"
	jamoVowels = "ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ"
	jamoTails  = "ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ"
)

// uncomposable names what of a text the composer cannot make a syllable of.
func uncomposable(s string) string {
	tail := false
	for _, c := range s {
		switch {
		case c == '-':
			tail = true
			continue
		case tail && !strings.ContainsRune(jamoTails, c):
			return fmt.Sprintf("%q after a hyphen, which is no final consonant", c)
		case tail:
		case strings.ContainsRune(jamoLeads, c), strings.ContainsRune(jamoVowels, c):
		case c >= '가' && c <= '힣':
		case strings.ContainsRune(`<>{}()[]|\^$*+?`, c):
			return fmt.Sprintf("%q, which belongs to the syntax of rules", c)
		case unicode.IsPunct(c), unicode.IsSpace(c):
		default:
			return fmt.Sprintf("%q", c)
		}
		tail = false
	}
	if tail {
		return "a hyphen at the end"
	}
	return ""
}

func replacerOf(m map[string]string) *strings.Replacer {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Sort(sort.Reverse(sort.StringSlice(keys)))
	var args []string
	for _, k := range keys {
		args = append(args, k, m[k])
	}
	return strings.NewReplacer(args...)
}

type specLint struct {
	r       *Report
	scripts map[string]bool // nil: not known
	schemes map[string]bool // the same
}

func (sl *specLint) file(path, id string) {
	r := sl.r
	src, err := os.ReadFile(path)
	if err != nil {
		fail("cannot read %s: %v", path, err)
	}
	rel := "specs/" + filepath.Base(path)
	at := func(line int) string { return fmt.Sprintf("%s:%d", rel, line) }
	f := readHSL(id, string(src))
	r.count("bundled specs", 1)
	for _, b := range f.bad {
		r.fail("parse", id+" "+b, rel, "the bundled spec %s does not parse: %s", id, b)
	}
	if len(f.bad) > 0 {
		return
	}
	for sec, kind := range f.kinds {
		want := ""
		switch sec {
		case "lang", "config", "macros", "vars", "normalize":
			want = "="
		case "rewrite", "transcribe", "test":
			want = "->"
		}
		if want != "" && kind != want {
			r.fail("parse", id+" kind "+sec, at(f.secs[sec][0].line), "section %s of the bundled spec %s is written with %s", sec, id, kind)
		}
	}
	one := func(key string) string {
		v := f.dict("lang", key)
		if len(v) == 0 {
			return ""
		}
		return v[0]
	}
	if got := one("id"); got != id {
		r.fail("identity", id, rel, "the bundled spec %s is for language %q", id, got)
	}
	if n := len(f.dict("lang", "codes")); n != 2 {
		r.fail("parse", id+" codes", rel, "the bundled spec %s has %d codes", id, n)
	}
	if s := one("script"); sl.scripts != nil && !sl.scripts[s] {
		r.fail("script", id, rel, "the bundled spec %s is for the script %q, which is not known", id, s)
	}
	for _, t := range f.dict("lang", "translit") {
		r.count("translits used", 1)
		if sl.schemes != nil && !sl.schemes[t] {
			r.fail("translit", id+" "+t, rel, "the bundled spec %s needs the translit %q, which the standard installation does not provide", id, t)
		}
	}
	macros := map[string]string{}
	for _, p := range f.secs["macros"] {
		if len(p.right) != 1 {
			r.fail("parse", id+" macro "+p.left, at(p.line), "the macro %q of the bundled spec %s has %d values", p.left, id, len(p.right))
			continue
		}
		if p.left == "" {
			r.fail("empty", id+" macro", at(p.line), "a macro of the bundled spec %s has an empty name: it is put everywhere", id)
		}
		macros[p.left] = p.right[0]
	}
	mr := replacerOf(macros)
	vars := map[string][]string{}
	for _, p := range f.secs["vars"] {
		vars[p.left] = p.right
	}
	for _, p := range f.secs["normalize"] {
		for _, from := range p.right {
			if from == "" {
				r.fail("empty", id+" normalize "+p.left, at(p.line), "the bundled spec %s normalizes the empty string to %q", id, p.left)
			}
		}
	}
	for _, sec := range []string{"rewrite", "transcribe"} {
		for _, p := range f.secs[sec] {
			r.count("rules", 1)
			key := fmt.Sprintf("%s %s %s", id, sec, p.left)
			bad := func(rule, format string, args ...any) {
				r.fail(rule, key, at(p.line), "the pattern %q of the bundled spec %s %s", p.left, id, fmt.Sprintf(format, args...))
			}
			h := readHRE(p.left, mr, vars)
			if h.err != "" {
				bad("pattern", "%s", h.err)
				continue
			}
			if canBeEmpty(h.core) {
				bad("empty", "may match the empty string, which makes the match panic")
			}
			for _, n := range h.negs {
				if unlimited(n) {
					bad("unlimited", "has an unlimited negative lookaround")
				}
			}
			if len(p.right) != 1 {
				bad("replacement", "has %d replacements", len(p.right))
				continue
			}
			to := mr.Replace(p.right[0])
			used := hreVar.FindAllStringSubmatch(to, -1)
			if len(used) > 0 {
				r.count("variables in replacements", len(used))
				sl.mapped(bad, h, used, vars)
			}
			plain := hreVar.ReplaceAllString(to, "")
			if sec != "transcribe" {
				continue
			}
			texts := []string{plain}
			if len(used) > 0 {
				texts = nil
				// each value in its place
				first := to
				for _, u := range used {
					for _, val := range vars[u[1]] {
						texts = append(texts, hreVar.ReplaceAllString(strings.Replace(first, u[0], val, 1), ""))
					}
				}
			}
			for _, t := range texts {
				if w := uncomposable(t); w != "" {
					bad("composable", "is transcribed to %q with %s", p.right[0], w)
					break
				}
			}
		}
	}
	for _, p := range f.secs["test"] {
		if len(p.right) == 0 {
			r.fail("parse", id+" test "+p.left, at(p.line), "the example %q of the bundled spec %s has no result", p.left, id)
		}
	}
}

// mapped: the k-th variable of a replacement stands for the k-th variable of
// the pattern, whose text is taken from the k-th group.
func (sl *specLint) mapped(bad func(rule, format string, args ...any), h hreRule, used [][]string, vars map[string][]string) {
	var groups []*syntax.Regexp
	caps(h.core, &groups)
	all := append(append([]string{}, h.looks...), h.vars...)
	for k, u := range used {
		vals, ok := vars[u[1]]
		if !ok || len(vals) == 0 {
			bad("variable", "has a replacement with the variable %s, which is not defined", u[0])
			return
		}
		if k >= len(all) || k >= len(groups) {
			bad("variable", "does not capture the variable %s of its replacement", u[0])
			return
		}
		if k < len(h.looks) {
			bad("variable", "has the variable <%s> in its lookbehind, where it is not captured, and %s in its replacement", all[k], u[0])
			return
		}
		// what the group matches must be a value
		src := groups[k].Sub[0].String()
		var q []string
		for _, v := range vars[all[k]] {
			q = append(q, regexp.QuoteMeta(v))
		}
		want, err := syntax.Parse("("+strings.Join(q, "|")+")", syntax.Perl)
		if err != nil {
			continue
		}
		if got := src; got != want.String() && got != want.Sub[0].String() {
			bad("variable", "captures something else than <%s> where its replacement expects the variable %s", all[k], u[0])
			return
		}
	}
}

// ---------------------------------------------------------------------------
// What the code provides.

// constStrs lists what a string may be; nil if it is not known.
func (a *PTA) constStrs(ctx *Ctx, v ssa.Value, recv *Obj, d int) []string {
	if d > 10 {
		return nil
	}
	c := ctx
	if ctx != nil {
		c, v = a.resolve(ctx, v)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constStr(x); ok {
			return []string{s}
		}
	case *ssa.MakeInterface:
		return a.constStrs(c, x.X, recv, d+1)
	case *ssa.ChangeType:
		return a.constStrs(c, x.X, recv, d+1)
	case *ssa.Convert:
		return a.constStrs(c, x.X, recv, d+1)
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			s := a.constStrs(c, e, recv, d+1)
			if s == nil {
				return nil
			}
			out = append(out, s...)
		}
		return out
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return nil
		}
		var out []string
		for _, l := range a.constStrs(c, x.X, recv, d+1) {
			for _, r := range a.constStrs(c, x.Y, recv, d+1) {
				out = append(out, l+r)
			}
		}
		return out
	case *ssa.Call:
		if callKey(x.Common()) == "fmt.Sprintf" {
			f, ok := constStr(x.Common().Args[0])
			if !ok {
				return nil
			}
			args := varargsOf(x.Common().Args[1])
			out := []string{""}
			k := 0
			for i := 0; i < len(f); i++ {
				add := []string{f[i : i+1]}
				if f[i] == '%' {
					if i+1 >= len(f) || f[i+1] != 's' && f[i+1] != 'v' || k >= len(args) {
						return nil
					}
					add = a.constStrs(c, args[k], recv, d+1)
					k++
					i++
				}
				var next []string
				for _, l := range out {
					for _, r := range add {
						next = append(next, l+r)
					}
				}
				out = next
			}
			return out
		}
	case *ssa.Field:
		if p, ok := x.X.(*ssa.Parameter); ok && recv != nil && len(p.Parent().Params) > 0 && p.Parent().Params[0] == p {
			return a.fieldStrs(recv, fieldPath(x.X.Type(), x.Field), d)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		path := fieldPath(deref(fa.X.Type()), fa.Field)
		if p, ok := fa.X.(*ssa.Parameter); ok && recv != nil && p.Parent().Params[0] == p {
			return a.fieldStrs(recv, path, d)
		}
		if al, ok := fa.X.(*ssa.Alloc); ok && recv != nil && al.Referrers() != nil {
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == al {
					if p, ok := st.Val.(*ssa.Parameter); ok && p.Parent().Params[0] == p {
						return a.fieldStrs(recv, path, d)
					}
				}
			}
		}
	}
	return nil
}

// fieldStrs lists what is stored in a field of an object.
func (a *PTA) fieldStrs(o *Obj, path string, d int) []string {
	var out []string
	for _, c := range a.ctxs {
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isStringT(st.Val.Type()) {
					continue
				}
				for _, e := range a.pts(c, st.Addr) {
					if canon(e.o) == canon(o) && e.path == path {
						s := a.constStrs(c, st.Val, nil, d+1)
						if s == nil {
							return nil
						}
						out = append(out, s...)
					}
				}
			}
		}
	}
	return out
}

func varargsOf(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, w := range *ia.Referrers() {
			if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
				out[k.Int64()] = st.Val
			}
		}
	}
	return out
}

// standardSchemes are the schemes of the translits of translit.Translits.
func (a *PTA) standardSchemes(r *Report) map[string]bool {
	root := a.rootOf(a.p.fn("translit", "Translits"))
	if root == nil {
		fail("no root translit.Translits")
	}
	objs := map[*Obj]types.Type{}
	for _, b := range root.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, e := range a.pts(root.ctx, ret.Results[0]) {
			for p, n := range canon(e.o).cells {
				if !strings.HasPrefix(p, e.path) {
					continue
				}
				for _, x := range n.list() {
					t := x.t
					if t == nil {
						t = types.NewPointer(x.o.typ)
					}
					objs[canon(x.o)] = t
				}
			}
		}
	}
	out := map[string]bool{}
	for o, t := range objs {
		if t == nil {
			return nil
		}
		var m *ssa.Function
		for _, u := range []types.Type{t, types.NewPointer(t)} {
			if sel := a.p.SSA.MethodSets.MethodSet(u).Lookup(nil, "Scheme"); sel != nil {
				m = a.p.SSA.MethodValue(sel)
				break
			}
		}
		if m == nil || m.Blocks == nil {
			return nil
		}
		for d := 0; d < 2 && m.Synthetic != ""; d++ {
			for _, b := range m.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(*ssa.Call); ok && ci.Common().StaticCallee() != nil {
						m = ci.Common().StaticCallee()
					}
				}
			}
		}
		for _, b := range m.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			s := a.constStrs(nil, ret.Results[0], o, 0)
			if s == nil {
				r.Assume = append(r.Assume, fmt.Sprintf("the scheme of %s is not known", o))
				return nil
			}
			for _, x := range s {
				out[x] = true
			}
		}
	}
	return out
}

// knownScripts are the names under which the library knows a script.
func (a *PTA) knownScripts() map[string]bool {
	out := map[string]bool{}
	isScript := func(t types.Type) bool {
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			return false
		}
		n := 0
		for i := 0; i < it.NumMethods(); i++ {
			switch it.Method(i).Name() {
			case "Is", "Normalize", "LocalizePunct":
				n++
			}
		}
		return n == 3
	}
	for _, c := range a.ctxs {
		if c.fn.Pkg == nil || c.fn.Pkg.Pkg.Path() != modPath {
			continue
		}
		// a map of scripts
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if m, ok := mu.Map.Type().Underlying().(*types.Map); ok && isScript(m.Elem()) {
						if s, ok := constStr(mu.Key); ok {
							out[s] = true
						}
					}
				}
			}
		}
		// a switch over names
		res := c.fn.Signature.Results()
		if res.Len() == 0 || !isScript(res.At(0).Type()) {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL || !isStringT(bo.X.Type()) {
					continue
				}
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if s, ok := constStr(v); ok {
						out[s] = true
					}
				}
			}
		}
	}
	return out
}

func init() {
	register("C10", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("Every file under specs is embedded; it is read by an independent reader of HSL: legal tokens, the right kind of each section, no key twice, two codes, its own file name as its ID.")
		r.rule("Its script is a key of the library's map of scripts and its translits are schemes of the values translit.Translits returns, both taken from the source.")
		r.rule("Every pattern, with macros and variables expanded, has only defined variables, compiles, is not nullable between its lookarounds, and has no unbounded repetition in a negative lookaround.")
		r.rule("Every variable of a replacement is defined and stands for a captured variable of its pattern in the same place; a replacement of a transcription rule is made of jamos, syllables, hyphens before final consonants, and punctuation.")
		sl := &specLint{r: r, scripts: a.knownScripts(), schemes: a.standardSchemes(r)}
		for s := range sl.schemes {
			r.sample("standard translit %s", s)
		}
		if len(sl.scripts) == 0 {
			sl.scripts = nil
			r.Assume = append(r.Assume, "the scripts of the bundled specs are known: no table of scripts was recognized")
		}
		r.count("scripts", len(sl.scripts))
		r.count("standard translits", len(sl.schemes))
		files := map[string]bool{}
		for _, p := range a.p.Pkgs {
			if p.PkgPath == modPath {
				for _, f := range p.EmbedFiles {
					files[f] = true
				}
			}
		}
		all, _ := filepath.Glob(filepath.Join(a.p.Dir, "specs", "*.hsl"))
		sort.Strings(all)
		for _, f := range all {
			if !files[f] {
				r.fail("identity", "embedded "+filepath.Base(f), "specs/"+filepath.Base(f), "the spec %s is not embedded", filepath.Base(f))
			}
			sl.file(f, strings.TrimSuffix(filepath.Base(f), ".hsl"))
		}
		for f := range files {
			if ok := func() bool {
				for _, g := range all {
					if f == g {
						return true
					}
				}
				return false
			}(); !ok && strings.HasSuffix(f, ".hsl") {
				sl.file(f, strings.TrimSuffix(filepath.Base(f), ".hsl"))
			}
		}
		r.need("bundled specs", 1)
		r.need("rules", 1)
	})
}
