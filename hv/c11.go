package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: replacements land exactly where the pattern matched.

const subwordPkg = modPath + "/internal/subword"

func isReplacer(t types.Type) bool {
	st := namedOf(deref(t))
	return st != nil && st.Obj().Pkg() != nil && st.Obj().Pkg().Path() == subwordPkg && st.Obj().Name() == "Replacer"
}

func isReplacement(t types.Type) bool {
	st := namedOf(t)
	return st != nil && st.Obj().Pkg() != nil && st.Obj().Pkg().Path() == subwordPkg && st.Obj().Name() == "Replacement"
}

func isReplacements(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isReplacement(sl.Elem())
}

func isFind(cc *ssa.CallCommon) bool { return callKey(cc) == modPath+"/pkg/hre.Pattern.Find" }

// replMethods tells what the methods of a replacer do.
type replMethods struct {
	ctor, commit, buffer map[*ssa.Function]bool
	low                  []*ssa.Function // those that apply the replacements themselves
}

func (a *PTA) replMethods() *replMethods {
	m := &replMethods{map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, nil}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, c := range a.ctxs {
		if !seen[c.fn] && pkgPathOf(c.fn) == subwordPkg {
			seen[c.fn] = true
			fns = append(fns, c.fn)
		}
	}
	word, repls := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, fn := range fns {
		if res := fn.Signature.Results(); res.Len() == 1 && isReplacer(res.At(0).Type()) {
			m.ctor[fn] = true
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isReplacer(fa.X.Type()) {
					continue
				}
				if isStringT(st.Val.Type()) {
					word[fn] = true
				}
				if isReplacements(st.Val.Type()) {
					repls[fn] = true
				}
			}
		}
		if word[fn] {
			m.low = append(m.low, fn)
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					c := ci.Common().StaticCallee()
					if c == nil || m.ctor[fn] {
						continue
					}
					if word[c] && !word[fn] {
						word[fn], again = true, true
					}
					if repls[c] && !repls[fn] {
						repls[fn], again = true, true
					}
				}
			}
		}
	}
	for _, fn := range fns {
		if word[fn] {
			m.commit[fn] = true
		} else if repls[fn] {
			m.buffer[fn] = true
		}
	}
	sort.Slice(m.low, func(i, j int) bool { return m.low[i].Pos() < m.low[j].Pos() })
	return m
}

// ---------------------------------------------------------------------------
// What replacements are made of.

type landing struct {
	a    *PTA
	r    *Report
	m    *replMethods
	fs   *frames // into everything
	top  *frames // not into the methods of replacers
	what string
	done map[string]bool
}

func (l *landing) bad(rule, key, where, format string, args ...any) {
	k := rule + key + where
	if l.done[k] {
		return
	}
	l.done[k] = true
	l.r.fail(rule, key, where, format, args...)
}

// where a bound comes from
type bnd struct {
	kind string // find, elem, key, keyend, shift, other
	base string
	at   string // the index in the match or the field of the element
	call *ssa.Call
	cf   *frame
}

func id(f *frame, v ssa.Value) string { return fmt.Sprintf("%p/%p", f, v) }

// elemID identifies an element of a list.
func (l *landing) elemID(f *frame, v ssa.Value) string {
	if ia, ok := v.(*ssa.IndexAddr); ok {
		s := ""
		for _, p := range l.fs.follow(f, ia.X, "") {
			s += id(p.f, p.v) + p.path + ","
		}
		return s + "[" + id(f, ia.Index) + "]"
	}
	return id(f, v)
}

func (l *landing) bound(f *frame, v ssa.Value, d int) bnd {
	var out *bnd
	for _, p := range l.fs.follow(f, v, "") {
		b := l.bound1(p, d)
		if b.kind == "shift" {
			return b
		}
		if out == nil {
			out = &b
		} else if out.kind != b.kind || out.base != b.base || out.at != b.at {
			return bnd{kind: "other"}
		}
	}
	if out == nil {
		return bnd{kind: "other"}
	}
	return *out
}

func (l *landing) findOf(f *frame, v ssa.Value) (*frame, *ssa.Call) {
	ps := l.fs.follow(f, v, "")
	if len(ps) != 1 {
		return nil, nil
	}
	if c, ok := ps[0].v.(*ssa.Call); ok && isFind(&c.Call) {
		return ps[0].f, c
	}
	return nil, nil
}

// match follows a match to the call which has found it.
func (l *landing) match(f *frame, v ssa.Value) (base string, cf *frame, call *ssa.Call) {
	ps := l.fs.follow(f, v, "")
	if len(ps) != 1 || ps[0].path != "" {
		return "", nil, nil
	}
	if ia, ok := ps[0].v.(*ssa.IndexAddr); ok {
		if cf, call = l.findOf(ps[0].f, ia.X); call != nil {
			return l.elemID(ps[0].f, ia), cf, call
		}
	}
	return "", nil, nil
}

func (l *landing) bound1(p part, d int) bnd {
	other := bnd{kind: "other"}
	if p.v == nil || d > 4 {
		return other
	}
	if p.path == ".Start" || p.path == ".Stop" {
		if isReplacement(deref(p.v.Type())) {
			return bnd{kind: "elem", base: l.elemID(p.f, p.v), at: p.path}
		}
		return other
	}
	if p.path != "" {
		return other
	}
	switch x := p.v.(type) {
	case *ssa.IndexAddr:
		base, cf, call := l.match(p.f, x.X)
		if call == nil {
			return other
		}
		if k, ok := constInt(x.Index); ok {
			return bnd{kind: "find", base: base, at: fmt.Sprint(k), call: call, cf: cf}
		}
		if i := lin(x.Index); i.v != nil && i.k != 0 && seqOf(linVal{i.v, 0}) != nil {
			return bnd{kind: "find", base: base, at: "len", call: call, cf: cf}
		}
		return other
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && nx.IsString && x.Index == 1 {
			return bnd{kind: "key", base: id(p.f, nx)}
		}
	case *ssa.BinOp:
		b, c := l.bound(p.f, x.X, d+1), l.bound(p.f, x.Y, d+1)
		_, kx := constInt(x.X)
		k, ky := constInt(x.Y)
		switch {
		case b.kind == "key" && x.Op == token.ADD && !ky:
			return bnd{kind: "keyend", base: b.base}
		case c.kind == "key" && x.Op == token.ADD && !kx:
			return bnd{kind: "keyend", base: c.base}
		case ky && k == 0 && (x.Op == token.ADD || x.Op == token.SUB):
			return b
		case (b.kind == "find" || b.kind == "elem") && ky, (c.kind == "find" || c.kind == "elem") && kx:
			return bnd{kind: "shift"}
		}
		for i, o := range []bnd{b, c} {
			if o.kind != "find" && o.kind != "elem" {
				continue
			}
			v := x.Y
			if i == 1 {
				v = x.X
			}
			for _, q := range l.fs.follow(p.f, v, "") {
				if call, ok := q.v.(*ssa.Call); ok && isBuiltin(call) && call.Call.Value.Name() == "len" {
					if k, _, _ := l.wordKind(q.f, call.Call.Args[0]); k == "elem" || k == "made" {
						return bnd{kind: "shift"}
					}
				}
			}
		}
	}
	return other
}

// wrong tells whether a bound may come from the wrong index or field.
func (l *landing) wrong(f *frame, v ssa.Value, at, field string) bool {
	for _, p := range l.fs.follow(f, v, "") {
		b := l.bound1(p, 0)
		if b.kind == "find" && b.at != at || b.kind == "elem" && b.at != field {
			return true
		}
	}
	return false
}

func isInterpolate(cc *ssa.CallCommon) bool {
	return callKey(cc) == modPath+"/pkg/hre.RPattern.Interpolate"
}

// wordKind tells what the text of a replacement is.
func (l *landing) wordKind(f *frame, v ssa.Value) (kind string, n ssa.Value, at part) {
	kind = ""
	for _, p := range l.fs.follow(f, v, "") {
		k := "other"
		var q ssa.Value
		switch x := p.v.(type) {
		case *ssa.Const:
			k = "const"
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && isInterpolate(&c.Call) {
				k = "made"
			}
		case *ssa.Call:
			switch callKey(&x.Call) {
			case "strings.Repeat":
				k, q = "repeat", x.Call.Args[1]
			case "strings.Map":
				k = "map"
			}
		case *ssa.Convert:
			for _, s := range l.fs.follow(p.f, x.X, "") {
				switch y := s.v.(type) {
				case *ssa.MakeSlice:
					if isByteSlice(y.Type()) {
						k, q, p = "make", y.Len, s
					}
				case *ssa.Call:
					if callKey(&y.Call) == "bytes.Repeat" {
						k, q, p = "repeat", y.Call.Args[1], s
					}
				}
			}
		default:
			if p.v != nil && p.path == ".Word" && isReplacement(deref(p.v.Type())) {
				k = "elem"
			}
		}
		if kind != "" && kind != k {
			return "other", nil, part{}
		}
		kind, n, at = k, q, p
	}
	if kind == "" {
		kind = "other"
	}
	return
}

// same tells whether two values are made from the same things.
func (l *landing) same(fs *frames, f *frame, v ssa.Value, g *frame, w ssa.Value) bool {
	set := func(f *frame, v ssa.Value) map[string]bool {
		m := map[string]bool{}
		for _, p := range fs.follow(f, v, "") {
			if c, ok := p.v.(*ssa.Const); ok {
				m[c.String()+p.path] = true
				continue
			}
			m[l.elemID(p.f, p.v)+p.path] = true
		}
		return m
	}
	a, b := set(f, v), set(g, w)
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// changed tells a text that was worked out from another one.
func changedText(p part) bool {
	switch x := p.v.(type) {
	case *ssa.BinOp, *ssa.Slice:
		return true
	case *ssa.Call:
		k := callKey(&x.Call)
		return strings.HasPrefix(k, "strings.") || strings.HasPrefix(k, "golang.org/x/text") || strings.HasPrefix(k, "bytes.")
	}
	return false
}

// mask checks that a mask has the length of what it stands for.
func (l *landing) mask(f *frame, n ssa.Value, p part, b bnd, where string) {
	r := l.r
	r.count("masks", 1)
	key := fnName(topOf(f).fn)
	ok := true
	for _, q := range l.fs.follow(p.f, n, "") {
		switch x := q.v.(type) {
		case *ssa.Const:
			if k, _ := constInt(x); k == 0 && len(l.fs.follow(p.f, n, "")) > 1 {
				ok = false // for an empty replacement
				continue
			}
			l.bad("mask", key, where, "%s: a mask of a fixed length stands for a replacement of any length (%s)", l.what, where)
			return
		case *ssa.BinOp:
			for _, o := range []ssa.Value{x.X, x.Y} {
				o := l.bound(q.f, o, 0)
				if o.kind == "elem" || o.kind == "find" || o.kind == "shift" {
					l.bad("mask", key, where, "%s: the length of a mask is worked out from where the match lies, not from the replacement it stands for (%s)", l.what, where)
					return
				}
			}
			ok = false
		case *ssa.Call:
			switch k := callKey(&x.Call); {
			case strings.HasPrefix(k, "unicode/utf8.RuneCount"):
				l.bad("mask", key, where, "%s: the length of a mask is counted in letters, but positions are counted in bytes (%s)", l.what, where)
				return
			case isBuiltin(x) && x.Call.Value.Name() == "len":
				arg := x.Call.Args[0]
				if isRunes(arg.Type()) {
					l.bad("mask", key, where, "%s: the length of a mask is counted in letters, but positions are counted in bytes (%s)", l.what, where)
					return
				}
				wk, _, wp := l.wordKind(q.f, arg)
				switch wk {
				case "elem":
					if b.kind == "elem" && l.elemID(wp.f, wp.v) != b.base {
						l.bad("mask", key, where, "%s: a mask has the length of another replacement than the one it stands for (%s)", l.what, where)
						return
					}
				case "made":
				default:
					ok = false
				}
			case isBuiltin(x) && (x.Call.Value.Name() == "min" || x.Call.Value.Name() == "max"):
				l.bad("mask", key, where, "%s: a mask may have another length than the replacement it stands for (%s)", l.what, where)
				return
			default:
				ok = false
			}
		default:
			ok = false
		}
	}
	if !ok {
		r.open("mask", key, "%s: the length of the mask at %s has an unknown form", l.what, where)
	}
	// what it is made of
	if c, isC := p.v.(*ssa.Call); isC && callKey(&c.Call) == "strings.Repeat" {
		for _, q := range l.fs.follow(p.f, c.Call.Args[0], "") {
			s, isS := constStr(q.v)
			if !isS {
				continue
			}
			if len(s) != 1 {
				l.bad("mask", key+" unit", where, "%s: a mask repeats a text of %d bytes for every byte it stands for (%s)", l.what, len(s), where)
			} else if s[0] >= ' ' && s[0] != 0x7f {
				l.bad("mask", key+" letter", where, "%s: a mask is made of %q, which later rules can match (%s)", l.what, s, where)
			}
		}
	}
}

// everyMask checks that the loop a mask is made in makes one for every
// replacement.
func (l *landing) everyMask(f *frame) {
	for g := f; g.call != nil && g.up != nil; g = g.up {
		in := g.call
		var d *Domain
		for _, x := range l.fs.loopsIn(in.Parent()) {
			if x.body[in.Block()] && (d == nil || len(x.body) < len(d.body)) {
				d = x
			}
		}
		if d == nil {
			continue
		}
		key, where := fnName(in.Parent())+" every", l.a.p.instrPos(in)
		l.r.count("loops making masks", 1)
		if d.kind != "count" {
			l.r.open("mask", key, "%s: the loop at %s has an unknown form", l.what, where)
			return
		}
		seq := seqOf(linVal{d.hi.v, 0})
		if sl, ok := seq.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) || d.lo.v == nil && d.lo.k > 0 || seq != nil && d.hi.k < 0 {
			l.bad("mask", key, where, "%s: masks are made for only a part of the replacements (%s)", l.what, where)
		}
		if seq == nil || !isReplacements(seq.Type()) {
			return
		}
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if b == in.Block() || seen[b] {
				return
			}
			seen[b] = true
			for _, s := range b.Succs {
				if s == d.hdr {
					l.bad("mask", key+" round", l.a.p.instrPos(lastPos(b)), "%s: no mask may be made for a replacement (the round ending at %s)", l.what, l.a.p.instrPos(lastPos(b)))
				} else if d.body[s] {
					walk(s)
				}
			}
		}
		walk(d.hdr.Succs[d.in])
		for b := range d.body {
			for _, s := range b.Succs {
				if !d.body[s] && b != d.hdr && !panicsOnly(s, map[*ssa.BasicBlock]bool{}) {
					l.bad("mask", key+" end", l.a.p.instrPos(lastPos(b)), "%s: the loop that makes masks may end early (%s)", l.what, l.a.p.instrPos(lastPos(b)))
				}
			}
		}
		return
	}
}

func isRunes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// topOf is the function outside the package of replacers which a frame works for.
func topOf(f *frame) *frame {
	for f.up != nil && pkgPathOf(f.fn) == subwordPkg {
		f = f.up
	}
	return f
}

// construct checks every replacement made.
func (l *landing) construct(f *frame) {
	type lit struct {
		start, stop, word ssa.Value
		at                ssa.Instruction
	}
	lits := map[ssa.Value]*lit{}
	var order []ssa.Value
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isReplacement(deref(fa.X.Type())) {
				continue
			}
			x := lits[fa.X]
			if x == nil {
				x = &lit{at: in}
				lits[fa.X] = x
				order = append(order, fa.X)
			}
			switch strings.TrimPrefix(fieldPath(deref(fa.X.Type()), fa.Field), ".") {
			case "Start":
				x.start = st.Val
			case "Stop":
				x.stop = st.Val
			case "Word":
				x.word = st.Val
			}
		}
	}
	for _, o := range order {
		x := lits[o]
		t := topOf(f)
		if f.up == nil || pkgPathOf(t.fn) == subwordPkg {
			continue
		}
		where := l.a.p.instrPos(x.at)
		for g := f; g != t; g = g.up {
			if g.call == nil {
				break
			}
			where = l.a.p.instrPos(g.call)
		}
		l.r.count("replacements made", 1)
		l.literal(f, x.start, x.stop, x.word, fnName(t.fn), where)
	}
}

func (l *landing) literal(f *frame, start, stop, word ssa.Value, key, where string) {
	what := l.what
	var b, c bnd
	if start != nil {
		b = l.bound(f, start, 0)
	}
	if stop != nil {
		c = l.bound(f, stop, 0)
	}
	for _, x := range []bnd{b, c} {
		if x.kind == "shift" {
			l.bad("bounds", key, where, "%s: a replacement is put beside where the pattern matched (%s)", what, where)
			return
		}
	}
	if start != nil && l.wrong(f, start, "0", ".Start") {
		l.bad("bounds", key+" start", where, "%s: a replacement does not start where the match starts (%s)", what, where)
	}
	if stop != nil && l.wrong(f, stop, "1", ".Stop") {
		l.bad("bounds", key+" stop", where, "%s: a replacement does not stop where the match stops (%s)", what, where)
	}
	if start == nil || stop == nil || word == nil {
		return
	}
	known := map[string]bool{"find": true, "elem": true}
	switch {
	case known[b.kind] && known[c.kind]:
		if b.base != c.base {
			l.bad("bounds", key+" match", where, "%s: a replacement starts in one match and stops in another (%s)", what, where)
		}
		l.r.count("bounds of matches", 1)
	case b.kind == "key" && c.kind == "keyend":
		l.r.count("bounds of letters", 1)
	default:
		l.r.open("bounds", key, "%s: the bounds of the replacement at %s have an unknown form (%s, %s)", what, where, b.kind, c.kind)
	}
	kind, n, p := l.wordKind(f, word)
	switch kind {
	case "repeat", "make":
		if known[b.kind] {
			l.mask(f, n, p, b, where)
		}
		if b.kind == "elem" {
			l.everyMask(f)
		}
	case "map":
		if b.kind == "elem" {
			l.bad("mask", key, where, "%s: a mask has one character for every letter, but positions are counted in bytes (%s)", what, where)
		}
	case "const":
		if b.kind == "elem" {
			l.bad("mask", key, where, "%s: a mask of a fixed length stands for a replacement of any length (%s)", what, where)
		}
	case "made":
		c := p.v.(*ssa.Extract).Tuple.(*ssa.Call)
		for _, v := range c.Call.Args {
			if !isIntSlice(v.Type()) || b.kind != "find" {
				continue
			}
			if base, _, fc := l.match(p.f, v); fc != nil && base != b.base {
				l.bad("bounds", key+" word", where, "%s: the replacement of one match is put at another (%s)", what, where)
			}
		}
	case "elem":
		if b.kind == "elem" && l.elemID(p.f, p.v) != b.base {
			l.bad("bounds", key+" word", where, "%s: the replacement of one match is put at another (%s)", what, where)
		}
	default:
		if b.kind == "elem" {
			l.r.open("mask", key, "%s: the replacement at %s has an unknown form", what, where)
		}
	}
}

// texts checks that a replacement is worked out from the text which was searched.
func (l *landing) texts(f *frame) {
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !isInterpolate(&call.Call) {
				continue
			}
			var word, m, pat ssa.Value
			for _, v := range call.Call.Args[1:] {
				switch {
				case isStringT(v.Type()):
					word = v
				case isIntSlice(v.Type()):
					m = v
				default:
					pat = v
				}
			}
			if word == nil || m == nil {
				continue
			}
			_, cf, find := l.match(f, m)
			where := l.a.p.instrPos(in)
			if find == nil {
				l.r.open("text", fnName(f.fn), "%s: where the match given to Interpolate at %s was found is not known", l.what, where)
				continue
			}
			l.r.count("replacements worked out", 1)
			if !l.same(l.fs, f, word, cf, find.Call.Args[1]) {
				l.differ(f, word, cf, find.Call.Args[1], where, "the replacement is worked out from another text than the one searched")
			}
			if pat != nil && !l.same(l.fs, f, pat, cf, find.Call.Args[0]) {
				l.r.open("pattern", fnName(f.fn), "%s: the replacement at %s may be worked out for another pattern", l.what, where)
			}
		}
	}
}

// differ reports two texts which are not the same, if one is a changed one.
func (l *landing) differ(f *frame, v ssa.Value, g *frame, w ssa.Value, where, msg string) {
	for i, ps := range [][]part{l.fs.follow(f, v, ""), l.fs.follow(g, w, "")} {
		qs := l.fs.follow(g, w, "")
		if i == 1 {
			qs = l.fs.follow(f, v, "")
		}
		for _, p := range ps {
			has := false
			for _, q := range qs {
				has = has || q == p
			}
			if !has && changedText(p) {
				l.bad("text", fnName(f.fn), where, "%s: %s (%s)", l.what, msg, where)
				return
			}
		}
	}
	l.r.open("text", fnName(f.fn), "%s: whether the text at %s is the one searched is not known", l.what, where)
}

// finds are the searches a value is worked out from.
func (l *landing) finds(f *frame, v ssa.Value) []part {
	var out []part
	seen := map[part]bool{}
	var walk func(f *frame, v ssa.Value, d int)
	walk = func(f *frame, v ssa.Value, d int) {
		for _, p := range l.top.follow(f, v, "") {
			p.path = ""
			if p.v == nil || seen[p] || d > 30 {
				continue
			}
			seen[p] = true
			if c, ok := p.v.(*ssa.Call); ok {
				if isFind(&c.Call) {
					out = append(out, p)
					continue
				}
			}
			if _, ok := p.v.(*ssa.Const); ok {
				continue
			}
			if al, ok := p.v.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if ia, ok := u.(*ssa.IndexAddr); ok {
						for _, w := range *ia.Referrers() {
							if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
								walk(p.f, st.Val, d+1)
							}
						}
					}
					if fa, ok := u.(*ssa.FieldAddr); ok {
						for _, w := range *fa.Referrers() {
							if st, ok := w.(*ssa.Store); ok && st.Addr == fa {
								walk(p.f, st.Val, d+1)
							}
						}
					}
				}
				continue
			}
			in, ok := p.v.(ssa.Instruction)
			if !ok {
				continue
			}
			for _, o := range in.Operands(nil) {
				if *o != nil {
					switch (*o).(type) {
					case *ssa.Builtin, *ssa.Function:
						continue
					}
					walk(p.f, *o, d+1)
				}
			}
		}
	}
	walk(f, v, 0)
	return out
}

// ctorOf follows a replacer to where it was made.
func (l *landing) ctorOf(f *frame, v ssa.Value) (part, bool) {
	ps := l.top.follow(f, v, "")
	if len(ps) != 1 {
		return part{}, false
	}
	c, ok := ps[0].v.(*ssa.Call)
	if !ok || !l.m.ctor[c.Call.StaticCallee()] {
		return part{}, false
	}
	return ps[0], true
}

func ctorWord(c *ssa.Call) ssa.Value {
	for _, v := range c.Call.Args {
		if isStringT(v.Type()) {
			return v
		}
	}
	return nil
}

// replacers checks that what is put into a replacer was found in its text.
func (l *landing) replacers() {
	type feed struct {
		k     part
		f     *frame
		call  *ssa.Call
		finds []part
	}
	var feeds []feed
	fed := map[part]map[part]bool{} // search -> replacers
	for _, f := range l.top.all {
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !l.m.buffer[call.Call.StaticCallee()] || pkgPathOf(f.fn) == subwordPkg {
					continue
				}
				k, ok := l.ctorOf(f, call.Call.Args[0])
				if !ok {
					l.r.open("replacer", fnName(f.fn), "%s: which replacer is used at %s is not known", l.what, l.a.p.instrPos(in))
					continue
				}
				fd := feed{k: k, f: f, call: call}
				for _, v := range call.Call.Args[1:] {
					if isStringT(v.Type()) {
						continue
					}
					fd.finds = append(fd.finds, l.finds(f, v)...)
				}
				for _, p := range fd.finds {
					if fed[p] == nil {
						fed[p] = map[part]bool{}
					}
					fed[p][k] = true
				}
				feeds = append(feeds, fd)
			}
		}
	}
	for _, fd := range feeds {
		where := l.a.p.instrPos(fd.call)
		kc := fd.k.v.(*ssa.Call)
		for _, p := range fd.finds {
			l.r.count("batches of replacements", 1)
			text := p.v.(*ssa.Call).Call.Args[1]
			for _, q := range l.top.follow(p.f, text, "") {
				if c, ok := q.v.(*ssa.Call); ok && l.m.commit[c.Call.StaticCallee()] {
					d, ok := l.ctorOf(q.f, c.Call.Args[0])
					if !ok {
						l.r.open("text", fnName(fd.f.fn)+" replacer", "%s: the text searched for what is put into the replacer at %s is not known", l.what, where)
						continue
					}
					if d == fd.k {
						continue
					}
					dw, kw := ctorWord(d.v.(*ssa.Call)), ctorWord(kc)
					if !fed[p][d] {
						l.bad("text", fnName(fd.f.fn)+" other", where, "%s: what is put into a replacer at %s was found in the text of another one, which does not follow it", l.what, where)
					} else if dw == nil || kw == nil || !l.same(l.top, d.f, dw, fd.k.f, kw) {
						l.r.open("text", fnName(fd.f.fn)+" start", "%s: whether the replacers at %s start from the same text is not known", l.what, where)
					}
					continue
				}
				kw := ctorWord(kc)
				if kw == nil {
					continue
				}
				same := false
				for _, s := range l.top.follow(fd.k.f, kw, "") {
					same = same || l.elemID(s.f, s.v)+s.path == l.elemID(q.f, q.v)+q.path
				}
				if !same {
					if q.v != nil && changedText(q) {
						l.bad("text", fnName(fd.f.fn)+" changed", where, "%s: what is put into a replacer at %s was found in a changed text, not in the one it replaces", l.what, where)
					} else {
						l.r.open("text", fnName(fd.f.fn)+" changed", "%s: whether the text searched is that of the replacer at %s is not known", l.what, where)
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// The order of searching, buffering and applying.

type applying struct {
	*stage
	m                *replMethods
	o2               *origins
	finds            []*GNode
	ctors            map[string][]*GNode
	commits, buffers map[string][]*GNode
	isFind           map[int]bool
	done             map[string]bool
}

func (l *applying) ids(n *GNode, v ssa.Value) []string {
	os, ok := l.o2.of(n.ctx, v)
	if !ok {
		return nil
	}
	var out []string
	for _, o := range os {
		c, isC := o.v.(*ssa.Call)
		al, isA := o.v.(*ssa.Alloc)
		switch {
		case isC && l.m.ctor[c.Call.StaticCallee()]:
			out = append(out, fmt.Sprintf("%p/%p", o.ctx, o.v))
		case isA && l.m.ctor[al.Parent()] && o.ctx.site != nil:
			// by the call of the constructor
			out = append(out, fmt.Sprintf("%p/%p", o.ctx.parent, o.ctx.site))
		default:
			return nil
		}
	}
	return out
}

func (l *applying) collect() {
	l.ctors, l.commits, l.buffers = map[string][]*GNode{}, map[string][]*GNode{}, map[string][]*GNode{}
	l.isFind, l.done = map[int]bool{}, map[string]bool{}
	for _, n := range l.g.nodes {
		if n.in == nil || n.kind != kInstr || pkgPathOf(n.ctx.fn) == subwordPkg {
			continue
		}
		if _, ok := n.in.(*ssa.Call); !ok {
			continue
		}
		cc := n.in.(*ssa.Call).Common()
		if isFind(cc) {
			l.finds = append(l.finds, n)
			l.isFind[n.id] = true
			continue
		}
		fn := cc.StaticCallee()
		if fn == nil {
			continue
		}
		switch {
		case l.m.ctor[fn]:
			k := fmt.Sprintf("%p/%p", n.ctx, n.in)
			l.ctors[k] = append(l.ctors[k], n)
		case l.m.commit[fn], l.m.buffer[fn]:
			ks := l.ids(n, cc.Args[0])
			if len(ks) == 0 {
				l.r.open("replacer", fnName(n.ctx.fn), "%s: which replacer is used at %s is not known", l.root.name, l.g.where(n))
			}
			for _, k := range ks {
				if l.m.commit[fn] {
					l.commits[k] = append(l.commits[k], n)
				} else if len(ks) == 1 {
					l.buffers[k] = append(l.buffers[k], n)
				}
			}
		}
	}
}

func (l *applying) bad(rule, key, where, format string, args ...any) {
	k := rule + key + where
	if l.done[k] {
		return
	}
	l.done[k] = true
	l.r.fail(rule, key, where, format, args...)
}

// go_ is walk, not following what panics.
func (l *applying) go_(from []int, avoid func(n *GNode) bool, allow func(iff *ssa.If, n *GNode, succ int) bool, goal func(n *GNode) bool) (*GNode, map[int]int) {
	return l.walk(from, func(n *GNode) bool { return n.kind == kPExit || n.in == nil && n.kind == kMid || avoid(n) }, allow, goal)
}

func nodeIn(ns []*GNode, n *GNode) bool {
	for _, m := range ns {
		if m == n {
			return true
		}
	}
	return false
}

func (l *applying) run() {
	l.collect()
	l.r.count("searches", len(l.finds))
	skip := func(iff *ssa.If, n *GNode, succ int) bool { return emptiness(iff, succ) != nil }
	exit := l.g.exit[l.root.ctx]
	var keys []string
	for k := range l.ctors {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return l.ctors[keys[i]][0].id < l.ctors[keys[j]][0].id })
	for _, k := range keys {
		l.r.count("replacers", 1)
		name := fnName(l.ctors[k][0].ctx.fn)
		end := func(n *GNode) bool { return nodeIn(l.ctors[k], n) }
		after := map[int]bool{}
		for _, c := range l.ctors[k] {
			for id := range l.g.reach(c.id, nil) {
				after[id] = true
			}
		}
		searched := false
		for _, f := range l.finds {
			for _, b := range l.buffers[k] {
				if m, _ := l.go_(l.g.nodes[f.id].succ, func(n *GNode) bool { return end(n) || l.isFind[n.id] }, nil, func(n *GNode) bool { return n == b }); m != nil {
					searched = true
				}
			}
		}
		if !searched {
			continue
		}
		for _, b := range l.buffers[k] {
			l.r.count("uses of replacers", 1)
			x, prev := l.go_(b.succ, func(n *GNode) bool { return end(n) || nodeIn(l.commits[k], n) }, skip, func(n *GNode) bool {
				return l.isFind[n.id] || n.id == exit
			})
			if x != nil && x.id != exit {
				l.bad("pending", name, l.lastBranch(x, prev), "%s: a pattern may be searched at %s while replacements put into a replacer at %s are not applied yet", l.root.name, l.g.where(x), l.g.where(b))
			} else if x != nil {
				l.bad("dropped", name, l.lastBranch(x, prev), "%s: replacements put into a replacer at %s may never be applied", l.root.name, l.g.where(b))
			}
		}
		for _, c := range l.commits[k] {
			l.r.count("uses of replacers", 1)
			x, prev := l.go_(c.succ, func(n *GNode) bool { return end(n) || l.isFind[n.id] }, skip, func(n *GNode) bool { return nodeIn(l.buffers[k], n) })
			if x != nil {
				l.bad("moved", name, l.lastBranch(x, prev), "%s: replacements are put into a replacer at %s after its text was changed at %s since they were found", l.root.name, l.g.where(x), l.g.where(c))
			}
		}
	}
	// replacers that go together
	for _, f := range l.finds {
		var ks []string
		for _, k := range keys {
			x, _ := l.go_(f.succ, func(n *GNode) bool { return nodeIn(l.ctors[k], n) || l.isFind[n.id] }, nil, func(n *GNode) bool { return nodeIn(l.buffers[k], n) })
			if x != nil {
				ks = append(ks, k)
			}
		}
		if len(ks) < 2 {
			continue
		}
		l.r.count("searches for two texts", 1)
		for _, k := range ks {
			passes := map[int]bool{}
			for _, b := range l.buffers[k] {
				var h *loopAt
				for _, lp := range l.around(b) {
					lp := lp
					if l.inLoop(f, lp) {
						break
					}
					h = &lp
					l.whole(lp, b, k)
				}
				if h != nil {
					passes[l.first(h.ctx, h.d.hdr)] = true
				} else {
					passes[b.id] = true
				}
			}
			x, prev := l.go_(f.succ, func(n *GNode) bool { return passes[n.id] }, skip, func(n *GNode) bool {
				return l.isFind[n.id] || n.id == exit
			})
			if x != nil {
				l.bad("one text", fnName(f.ctx.fn), l.lastBranch(x, prev), "%s: what was found at %s may be replaced in only one of the two texts", l.root.name, l.g.where(f))
			}
		}
	}
}

func (l *applying) inLoop(n *GNode, lp loopAt) bool {
	for _, x := range l.around(n) {
		if x == lp {
			return true
		}
	}
	return false
}

// whole checks that a loop puts every replacement of a batch into a replacer.
func (l *applying) whole(lp loopAt, b *GNode, k string) {
	pos := l.a.p.instrPos(lastPos(lp.d.hdr))
	key := fnName(lp.ctx.fn)
	l.r.count("loops over batches", 1)
	seq, whole := l.seqValue(lp)
	if whole != "" && whole != "visits the elements in reverse" {
		l.bad("part", key, pos, "%s: the loop that puts replacements into the second text %s", l.root.name, whole)
	}
	if seq != nil {
		if sl := partialSlice(l.a, lp.ctx, seq); sl != nil {
			l.bad("part", key, l.a.p.instrPos(sl), "%s: only a part of the replacements is put into the second text", l.root.name)
		}
	} else {
		l.r.open("batch", key, "%s: the loop at %s has an unknown form", l.root.name, pos)
		return
	}
	for x := range lp.d.body {
		for i, sb := range x.Succs {
			if lp.d.body[sb] || x == lp.d.hdr || panicsOnly(sb, map[*ssa.BasicBlock]bool{}) {
				continue
			}
			if iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok && emptiness(iff, i) != nil && emptySeq(l, lp, emptiness(iff, i), seq) {
				continue
			}
			l.bad("part", key, l.a.p.instrPos(lastPos(x)), "%s: the loop that puts replacements into the second text may be left early", l.root.name)
		}
	}
	var from []int
	for _, sb := range lp.d.hdr.Succs {
		if lp.d.body[sb] && sb != lp.d.hdr {
			from = append(from, l.first(lp.ctx, sb))
		}
	}
	x, prev := l.go_(from, func(y *GNode) bool {
		if nodeIn(l.buffers[k], y) {
			return true
		}
		return y.ctx == lp.ctx && y.in != nil && !lp.d.body[y.in.Block()]
	}, nil, func(y *GNode) bool { return l.isHeader(y, lp) })
	if x != nil {
		l.bad("part", key+" round", l.lastBranch(x, prev), "%s: a replacement may be left out of the second text", l.root.name)
	}
}

func emptySeq(l *applying, lp loopAt, v, seq ssa.Value) bool {
	_, x := l.a.resolve(lp.ctx, v)
	_, y := l.a.resolve(lp.ctx, seq)
	return x == y
}

// ---------------------------------------------------------------------------
// The copying.

// copying follows how a text is put together again around its replacements.
type copying struct {
	a *PTA
	r *Report
}

// eltLoad names the parts of an element of a list of replacements, and the
// indices of a match, by the list and the index.
func eltLoad(x *Sim, s *State, n *GNode) {
	ld, ok := n.in.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || n.kind != kInstr {
		return
	}
	var ia *ssa.IndexAddr
	path := ""
	switch ad := ld.X.(type) {
	case *ssa.IndexAddr:
		ia = ad
	case *ssa.FieldAddr:
		y, ok := ad.X.(*ssa.IndexAddr)
		if !ok {
			return
		}
		ia, path = y, fieldPath(deref(ad.X.Type()), ad.Field)
	}
	if ia == nil {
		return
	}
	sl, ok := ia.X.Type().Underlying().(*types.Slice)
	if !ok || !isReplacement(sl.Elem()) {
		return
	}
	base, idx := x.eval(s, n.ctx, ia.X), x.eval(s, n.ctx, ia.Index)
	if containsReg(base, n.ctx, ld) || containsReg(idx, n.ctx, ld) {
		return
	}
	for _, lf := range pleaves(ld.Type()) {
		x.set(s, n.ctx, ld, lf.path, x.mk("elt", path+lf.path, base, idx))
	}
}

// partner tells whether two terms are two parts of one element.
func partner(a, b *Term) bool {
	if a == nil || b == nil || a.op != "elt" || b.op != "elt" {
		return false
	}
	return a.args[0] == b.args[0] && a.args[1] == b.args[1]
}

func newCopierN(x *Sim, name string) *copier {
	c := &copier{x, ekey{o: copyObj, path: name}, ekey{o: copyObj, path: name + "'"}}
	x.held = append(x.held, c.pos, c.alt)
	return c
}

// partOf is the other end of the part of a text an element stands for.
func stopOf(x *Sim, start *Term) *Term {
	if start == nil {
		return nil
	}
	if start.op == "elt" && start.s == ".Start" {
		return x.mk("elt", ".Stop", start.args...)
	}
	if start.op == "elem" && start.s == "0" {
		return x.mk("elem", "1", start.args...)
	}
	return nil
}

// startOf is where the text a value replaces starts.
func startOf(x *Sim, s *State, ctx *Ctx, v ssa.Value) *Term {
	t := x.eval(s, ctx, v)
	if t.op == "elt" && t.s == ".Word" {
		return x.mk("elt", ".Start", t.args...)
	}
	c, w := x.a.resolve(ctx, v)
	if ex, ok := w.(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok && isInterpolate(&call.Call) {
			for _, a := range call.Call.Args {
				if isIntSlice(a.Type()) {
					return x.mk("elem", "0", x.eval(s, c, a))
				}
			}
		}
	}
	return nil
}

func (l *copying) run(c *Ctx) {
	a, r := l.a, l.r
	x := a.newSim(c.root)
	x.root = &Root{name: fnName(c.fn), fn: c.fn, ctx: c}
	x.maxInt = 64
	txt, lev := newCopierN(x, "txt"), newCopierN(x, "lev")
	done := map[string]bool{}
	bad := func(s *State, n *GNode, msg string) {
		k := x.g.where(n) + msg
		if !done[k] {
			done[k] = true
			r.fail("copy", fnName(n.ctx.fn)+" "+msg, x.g.where(n), "%s: %s (path: %s)", x.root.name, msg, s.trail())
		}
	}
	x.opaque = func(k *Ctx) bool { return k != c && (isFindFn(k.fn) || !a.simpleFn(k, 3)) }
	// source tells the texts that are copied
	source := func(ctx *Ctx, v ssa.Value) bool {
		cx, w := a.resolve(ctx, v)
		if p, ok := w.(*ssa.Parameter); ok {
			return cx == c && isStringT(p.Type())
		}
		if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
			fa, ok := u.X.(*ssa.FieldAddr)
			return ok && isReplacer(fa.X.Type())
		}
		return false
	}
	event := func(cp *copier, what string, s *State, n *GNode, v ssa.Value) {
		s.cl[what] = "1"
		cx, w := a.resolve(n.ctx, v)
		if sl, ok := w.(*ssa.Slice); ok && source(cx, sl.X) {
			lo, hi := x.cInt(0), (*Term)(nil)
			if sl.Low != nil {
				lo = x.eval(s, cx, sl.Low)
			}
			if cp.at(s, lo) == 2 {
				bad(s, n, "what is copied does not go on where it ended")
			} else if cp.known(s) {
				r.count("pieces", 1)
			}
			s.cl[what+"end"] = ""
			if sl.High != nil {
				hi = x.eval(s, cx, sl.High)
				if hi.op == "len" {
					s.cl[what+"end"] = "1"
				}
				cp.reset(s, hi)
			} else {
				s.cl[what+"end"] = "1"
				cp.reset(s, x.mk("end", what))
			}
			return
		}
		if source(cx, w) && what == "txt" {
			// all of it
			if cp.at(s, x.cInt(0)) == 2 {
				bad(s, n, "the whole text is copied after a part of it")
			}
			s.cl[what+"end"] = "1"
			cp.reset(s, x.mk("end", what))
			return
		}
		if s.cl[what+"end"] == "1" && !isConstStr(x.eval(s, n.ctx, v)) && startOf(x, s, n.ctx, v) != nil {
			bad(s, n, "a replacement is written after the end of the text")
		}
		if st := startOf(x, s, n.ctx, v); st != nil {
			if cp.at(s, st) == 2 {
				bad(s, n, "a replacement is written elsewhere than where its match starts")
			}
			if cp.at(s, st) == 1 {
				r.count("replacements written", 1)
			}
			cp.reset(s, stopOf(x, st))
			return
		}
		for _, k := range []ekey{cp.pos, cp.alt} {
			if st := stopOf(x, s.env[k]); st != nil {
				cp.reset(s, st)
				return
			}
		}
		if what == "txt" {
			cp.reset(s, nil)
		}
	}
	fill := map[*ssa.BasicBlock]bool{}
	for _, d := range fillLoops(c.fn) {
		fill[d.hdr] = true
	}
	finish := func(cp *copier, what string, s *State, n *GNode) {
		if s.cl[what] == "" {
			return
		}
		if s.cl[what+"end"] == "1" {
			r.count("copies finished", 1)
			return
		}
		if cp.known(s) {
			bad(s, n, "the text after the last replacement is not copied")
		}
	}
	x.after = func(s *State, n *GNode) { canonLoad(x, s, n); eltLoad(x, s, n) }
	x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool {
		if atEnd(x, s, txt, cond, truth) {
			s.cl["txtend"] = "1"
		}
		if atEnd(x, s, lev, cond, truth) {
			s.cl["levend"] = "1"
		}
		if v := emptyHere(n, truth); v != nil {
			// an empty replacement need not be written
			if st := startOf(x, s, n.ctx, v); st != nil && txt.at(s, st) == 1 {
				txt.reset(s, stopOf(x, st))
			}
		}
		for _, cp := range []*copier{txt, lev} {
			if t := atStart(x, s, cp, cond, truth); t != nil {
				// both names are right
				if p := s.env[cp.pos]; p != nil {
					s.env[cp.alt] = p
				}
				s.env[cp.pos] = t
			}
		}
		return true
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.in == nil || n.kind != kInstr {
			return nil
		}
		if n.in == n.in.Block().Instrs[0] && fill[n.in.Block()] {
			for _, k := range []ekey{lev.pos, lev.alt} {
				if st := stopOf(x, s.env[k]); st != nil {
					lev.reset(s, st)
					break
				}
			}
		}
		switch in := n.in.(type) {
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(in.Call.Args) == 2 {
				v := in.Call.Args[1]
				if isByteSlice(in.Type()) {
					event(txt, "txt", s, n, v)
				} else if isIntSlice(in.Type()) {
					event(lev, "lev", s, n, v)
				}
			}
		case *ssa.Store:
			fa, ok := in.Addr.(*ssa.FieldAddr)
			if !ok || !isReplacer(fa.X.Type()) || n.ctx != c {
				return nil
			}
			if isStringT(in.Val.Type()) && made(in.Val) {
				finish(txt, "txt", s, n)
			}
			if isIntSlice(in.Val.Type()) {
				finish(lev, "lev", s, n)
			}
		case *ssa.Return:
			if n.ctx == c && len(in.Results) == 1 && made(in.Results[0]) {
				finish(txt, "txt", s, n)
			}
		}
		return nil
	}
	x.call = func(s *State, n *GNode) []*State {
		key, cc, _ := x.key1(n)
		if cc == nil {
			return nil
		}
		if (isWriter(key) || key == "bytes.Buffer.Write") && len(cc.Args) == 2 {
			event(txt, "txt", s, n, cc.Args[1])
			return nil
		}
		return x.std(s, n)
	}
	s := newState()
	txt.reset(s, x.cInt(0))
	lev.reset(s, x.cInt(0))
	r.count("copiers", 1)
	x.run(s)
	r.sim(x)
	l.fills(c)
}

// atEnd tells whether a branch finds the position at the end of a text.
func atEnd(x *Sim, s *State, cp *copier, t *Term, truth bool) bool {
	for t.op == "!" {
		t, truth = t.args[0], !truth
	}
	if len(t.args) != 2 {
		return false
	}
	a, b := t.args[0], t.args[1]
	switch {
	case t.op == "<" && !truth && b.op == "len":
		return cp.at(s, a) == 1
	case t.op == "==" && truth && b.op == "len":
		return cp.at(s, a) == 1
	case t.op == "==" && truth && a.op == "len":
		return cp.at(s, b) == 1
	}
	return false
}

// atStart tells whether a branch finds nothing between the position and the
// start of the next match, which does not start before it.
func atStart(x *Sim, s *State, cp *copier, t *Term, truth bool) *Term {
	for t.op == "!" {
		t, truth = t.args[0], !truth
	}
	if len(t.args) != 2 {
		return nil
	}
	a, b := t.args[0], t.args[1]
	if t.op == "==" && truth && stopOf(x, a) != nil {
		a, b = b, a
	}
	if (t.op == "<" && !truth || t.op == "==" && truth) && stopOf(x, b) != nil && cp.at(s, a) == 1 {
		return b
	}
	return nil
}

// emptyHere is what is empty where a branch goes this way.
func emptyHere(n *GNode, truth bool) ssa.Value {
	iff, ok := n.in.(*ssa.If)
	if !ok {
		return nil
	}
	i := 0
	if !truth {
		i = 1
	}
	return emptiness(iff, i)
}

func isFindFn(fn *ssa.Function) bool {
	return fn.Name() == "Find" && pkgPathOf(fn) == modPath+"/pkg/hre" || fn.Name() == "Interpolate"
}

// made tells a text taken out of a buffer.
func made(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		switch callKey(&x.Call) {
		case "bytes.Buffer.String", "strings.Builder.String":
			return true
		}
	case *ssa.Convert:
		return isByteSlice(x.X.Type())
	case *ssa.Phi:
		for _, e := range x.Edges {
			if made(e) {
				return true
			}
		}
	}
	return false
}

// oneAppended is an append of single integers.
func oneAppended(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok || !isIntSlice(c.Type()) {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return false
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	_, ok = sl.X.(*ssa.Alloc)
	return ok
}

// fillLoops are the loops that append one level for every byte.
func fillLoops(fn *ssa.Function) []*Domain {
	var out []*Domain
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if !oneAppended(in) {
				continue
			}
			var d *Domain
			for _, y := range loopsOf(fn) {
				if y.body[b] && (d == nil || len(y.body) < len(d.body)) {
					d = y
				}
			}
			if d != nil {
				out = append(out, d)
			}
		}
	}
	return out
}

// fills checks how many levels stand for a replacement.
func (l *copying) fills(c *Ctx) {
	for _, d := range fillLoops(c.fn) {
		where := l.a.p.instrPos(lastPos(d.hdr))
		bad := func(msg string) {
			l.r.fail("levels", fnName(c.fn), where, "%s: the levels of a replacement are %s", fnName(c.fn), msg)
		}
		l.r.count("levels filled", 1)
		if d.kind == "string" {
			bad("as many as its letters, but levels are looked up by bytes")
			continue
		}
		if iff, ok := d.hdr.Instrs[len(d.hdr.Instrs)-1].(*ssa.If); ok && d.kind == "other" {
			// a bound worked out in every round
			bo, _ := iff.Cond.(*ssa.BinOp)
			if bo != nil && isCmp(bo.Op) {
				hi := bo.Y
				if _, isPhi := bo.X.(*ssa.Phi); !isPhi {
					hi = bo.X
				}
				d = &Domain{fn: d.fn, hdr: d.hdr, body: d.body, kind: "count", hi: linVal{hi, 0}}
				if seqOf(d.hi) != nil && !isRunes(seqOf(d.hi).Type()) {
					d.kind = "other"
				}
			}
		}
		if d.kind != "count" {
			l.r.open("levels", fnName(c.fn), "%s: the loop at %s has an unknown form", fnName(c.fn), where)
			continue
		}
		seq := seqOf(linVal{d.hi.v, 0})
		if seq == nil {
			if call, ok := d.hi.v.(*ssa.Call); ok && strings.HasPrefix(callKey(&call.Call), "unicode/utf8.RuneCount") {
				bad("as many as its letters, but levels are looked up by bytes")
				continue
			}
			if _, ok := d.hi.v.(*ssa.BinOp); ok || d.hi.v == nil {
				bad("not as many as its bytes")
				continue
			}
			l.r.open("levels", fnName(c.fn), "%s: the loop at %s has an unknown form", fnName(c.fn), where)
			continue
		}
		if isRunes(seq.Type()) {
			bad("as many as its letters, but levels are looked up by bytes")
			continue
		}
		if isReplacements(seq.Type()) {
			l.r.open("levels", fnName(c.fn), "%s: how many levels are appended at %s is not known", fnName(c.fn), where)
			continue
		}
		if d.hi.k != 0 || d.lo.v != nil || d.lo.k != 0 {
			bad("not as many as its bytes")
		}
	}
}

// ---------------------------------------------------------------------------
// Searching in the rest of a text.

// shifted checks that what is found in the rest of a text is moved by where the
// rest starts.
func (a *PTA) shifted(r *Report) {
	done := map[*ssa.Function]bool{}
	for _, c := range a.ctxs {
		fn := c.fn
		if done[fn] || !strings.HasPrefix(trimMod(pkgPathOf(fn)), "pkg/hre") && pkgPathOf(fn) != modPath {
			continue
		}
		done[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !strings.HasPrefix(callKey(&call.Call), "regexp.Regexp.Find") || !isIntSlice(call.Type()) {
					continue
				}
				sl, ok := call.Call.Args[1].(*ssa.Slice)
				if !ok || sl.Low == nil {
					continue
				}
				if k, ok := constInt(sl.Low); ok && k == 0 {
					continue
				}
				r.count("searches in the rest of a text", 1)
				a.shift(r, fn, call, sl.Low)
			}
		}
	}
}

func (a *PTA) shift(r *Report, fn *ssa.Function, call *ssa.Call, low ssa.Value) {
	where := a.p.instrPos(call)
	name := fnName(fn)
	bad := func(at, msg string) { r.fail("shift", name+" "+msg, at, "%s: %s", name, msg) }
	loops := loopsOf(fn)
	var inner *ssa.BasicBlock // the loop which moves them all
	moved := 0
	type use struct {
		ld *ssa.UnOp
		ia *ssa.IndexAddr
	}
	var uses []use
	var stores []*ssa.Store
	unknown := false
	for _, u := range *call.Referrers() {
		switch u := u.(type) {
		case *ssa.IndexAddr:
			for _, w := range *u.Referrers() {
				switch w := w.(type) {
				case *ssa.Store:
					stores = append(stores, w)
				case *ssa.UnOp:
					uses = append(uses, use{w, u})
				}
			}
		case *ssa.Call:
			if !isBuiltin(u) {
				unknown = true
			}
		case *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		case *ssa.Slice, *ssa.Phi:
			unknown = true
		}
	}
	plus := func(v ssa.Value) (ssa.Value, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, false
		}
		if b.X == low {
			return b.Y, true
		}
		if b.Y == low {
			return b.X, true
		}
		return nil, false
	}
	for _, st := range stores {
		at := a.p.instrPos(st)
		ia := st.Addr.(*ssa.IndexAddr)
		old, ok := plus(st.Val)
		if !ok {
			if b, isB := st.Val.(*ssa.BinOp); isB && (b.Op == token.ADD || b.Op == token.SUB) && simple(b.X, call) && simple(b.Y, call) {
				bad(at, "what was found in the rest of the text is not moved by where the rest starts")
			} else {
				r.open("shift", name, "%s: how what was found is moved at %s is not known", name, at)
			}
			return
		}
		if ld, isL := old.(*ssa.UnOp); isL {
			if oa, isI := ld.X.(*ssa.IndexAddr); !isI || oa.Index != ia.Index {
				r.open("shift", name, "%s: how what was found is moved at %s is not known", name, at)
				return
			}
		}
		var d *Domain
		for _, y := range loops {
			if y.body[st.Block()] && !y.body[call.Block()] && (d == nil || len(y.body) < len(d.body)) {
				d = y
			}
		}
		if d == nil || d.kind != "count" || !d.isIndex(ia.Index) {
			r.open("shift", name, "%s: the loop at %s has an unknown form", name, at)
			return
		}
		if seqOf(d.hi) != call || d.lo.v != nil || d.lo.k != 0 {
			if c := seqOf(linVal{d.hi.v, 0}); d.hi.v == nil || c == call && d.hi.k < 0 || d.lo.k > 0 {
				bad(at, "not all of what was found in the rest of the text is moved by where the rest starts")
			} else {
				r.open("shift", name, "%s: the loop at %s has an unknown form", name, at)
			}
			return
		}
		// skipped only if nothing was found
		for b := range d.body {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || b == d.hdr {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || !unmatched(bo, call) {
				bad(a.p.instrPos(lastPos(b)), "not all of what was found in the rest of the text is moved by where the rest starts")
				return
			}
		}
		for b := range d.body {
			for _, s := range b.Succs {
				if !d.body[s] && b != d.hdr {
					bad(a.p.instrPos(lastPos(b)), "not all of what was found in the rest of the text is moved by where the rest starts")
					return
				}
			}
		}
		moved++
		inner = d.hdr
		loops = append(loops, d)
	}
	if moved > 1 {
		bad(where, "what was found in the rest of the text is moved twice")
		return
	}
	if moved == 1 {
		for _, u := range uses {
			in := false
			for _, d := range loops {
				in = in || d.hdr == inner && d.body[u.ld.Block()]
			}
			if !in && !inner.Dominates(u.ld.Block()) {
				bad(a.p.instrPos(u.ld), "what was found in the rest of the text is used before it is moved by where the rest starts")
			}
		}
		return
	}
	// each use moves it
	n, k := 0, 0
	for _, u := range uses {
		for _, w := range *u.ld.Referrers() {
			v, ok := w.(ssa.Value)
			if !ok {
				continue
			}
			if b, isB := w.(*ssa.BinOp); isB && isCmp(b.Op) {
				continue
			}
			n++
			if _, ok := plus(v); ok {
				k++
			}
		}
	}
	switch {
	case unknown:
		r.open("shift", name, "%s: how what was found at %s is moved is not known", name, where)
	case n > k:
		bad(where, "what was found in the rest of the text is not moved by where the rest starts")
	}
}

// simple tells values that are not worked out.
func simple(v ssa.Value, m ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Phi, *ssa.Parameter:
		return true
	case *ssa.UnOp:
		ia, ok := x.X.(*ssa.IndexAddr)
		return ok && ia.X == m
	}
	return false
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

// unmatched tells a test whether a group took part in a match.
func unmatched(b *ssa.BinOp, m ssa.Value) bool {
	x, y := b.X, b.Y
	op := b.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y, op = y, x, swapOp(op)
	}
	ld, ok := x.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	k, isK := constInt(y)
	if !ok || ia.X != m || !isK {
		return false
	}
	switch op {
	case token.EQL, token.NEQ, token.GTR, token.LEQ:
		return k == -1
	case token.GEQ, token.LSS:
		return k == 0
	}
	return false
}

func init() {
	register("C11", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("Every replacement made for a match starts at the first and stops at the second index of the match it was worked out for, in the text which was searched; one made from another replacement has its bounds, and stands for it with a mask of exactly its length in bytes.")
		r.rule("Of every replacer: after replacements are put into it nothing is searched until they are applied, none of them is dropped, and its text does not change between searching and putting in what was found; what is put in was found in its own text or in that of a replacer which is given every one of the same replacements.")
		r.rule("Where a text is put together around its replacements, each piece goes on where the last one or the last match ended, each replacement is written where its match starts, the rest is copied, and one level stands for each byte.")
		r.rule("What a pattern finds in the rest of a text is moved by where the rest starts, all of it and once.")
		m := a.replMethods()
		var roots []*Root
		g := a.newOrigins()
		for _, root := range a.roots {
			if !root.api || root.fn == nil || pkgPathOf(root.fn) != modPath {
				continue
			}
			if !a.reaches1(root.ctx, func(fn *ssa.Function) bool { return m.ctor[fn] }) {
				continue
			}
			roots = append(roots, root)
			r.count("operations", 1)
			l := &landing{a: a, r: r, m: m, what: root.name, done: map[string]bool{}}
			in := func(fn *ssa.Function) bool { p := pkgPathOf(fn); return p == modPath || p == subwordPkg }
			l.fs = &frames{into: in}
			l.fs.root(root.fn)
			l.top = &frames{into: func(fn *ssa.Function) bool { return pkgPathOf(fn) == modPath }}
			l.top.root(root.fn)
			for _, f := range l.fs.all {
				l.construct(f)
				l.texts(f)
			}
			l.replacers()
			ap := &applying{stage: &stage{a: a, r: r, root: root, g: a.graph(root), loops: map[*ssa.Function][]*Domain{}}, m: m, o2: g}
			ap.run()
		}
		cp := &copying{a: a, r: r}
		seen := map[*ssa.Function]bool{}
		for _, c := range a.ctxs {
			if !c.root.api || seen[c.fn] {
				continue
			}
			ok := false
			for _, fn := range m.low {
				ok = ok || fn == c.fn
			}
			if pkgPathOf(c.fn) == modPath+"/pkg/hre" && c.fn.Name() == "Replace" && isStringT(resultT(c.fn)) {
				ok = true
			}
			if ok {
				seen[c.fn] = true
				cp.run(c)
			}
		}
		a.kept(r, m)
		a.shifted(r)
		r.analysedBy(a, roots)
		r.need("methods that remember replacements", 1)
		r.need("operations", 2)
		r.need("bounds of matches", 2)
		r.need("bounds of letters", 1)
		r.need("masks", 1)
		r.need("batches of replacements", 3)
		r.need("uses of replacers", 6)
		r.need("searches for two texts", 1)
		r.need("copiers", 2)
		r.need("pieces", 3)
		r.need("replacements written", 2)
		r.need("copies finished", 3)
		r.need("levels filled", 1)
		r.need("searches in the rest of a text", 1)
	})
}

func resultT(fn *ssa.Function) types.Type {
	if r := fn.Signature.Results(); r.Len() > 0 {
		return r.At(0).Type()
	}
	return types.Typ[types.Invalid]
}
