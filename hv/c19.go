package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: text no rule speaks about passes through unchanged.

func isSubwordT(t types.Type) bool {
	st := namedOf(t)
	return st != nil && st.Obj().Pkg() != nil && st.Obj().Pkg().Path() == subwordPkg && st.Obj().Name() == "Subword"
}

func isSwBuilder(t types.Type) bool {
	st := namedOf(deref(t))
	return st != nil && st.Obj().Pkg() != nil && st.Obj().Pkg().Path() == subwordPkg && st.Obj().Name() == "Builder"
}

func isTextBuf(t types.Type) bool {
	st := namedOf(deref(t))
	if st == nil || st.Obj().Pkg() == nil {
		return false
	}
	switch st.Obj().Pkg().Path() + "." + st.Obj().Name() {
	case "bytes.Buffer", "strings.Builder":
		return true
	}
	return isSwBuilder(t)
}

// isTracing tells what only watches: methods of a type that holds a function
// which is given traces, or of one that holds such a type.
func isTracing(fn *ssa.Function) bool {
	var t types.Type
	if r := fn.Signature.Recv(); r != nil {
		t = r.Type()
	} else if len(fn.FreeVars) > 0 && strings.HasSuffix(fn.Name(), "$bound") {
		t = fn.FreeVars[0].Type()
	} else {
		return false
	}
	return watches(t, 3)
}

func watches(t types.Type, d int) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || d == 0 {
		return false
	}
	if n := namedOf(deref(t)); n != nil && n.Obj().Exported() {
		return false
	}
	direct := false
	for i := 0; i < st.NumFields(); i++ {
		if sig, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && sig.Params().Len() == 1 {
			if n := namedOf(sig.Params().At(0).Type()); n != nil && n.Obj().Name() == "Trace" {
				direct = true
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if n := namedOf(deref(st.Field(i).Type())); n != nil && n.Obj().Exported() && n.Obj().Name() == "Spec" {
			return false
		}
	}
	if direct {
		return true
	}
	// a record of a tracer: its first field is the tracer
	if st.NumFields() > 0 {
		if p, ok := st.Field(0).Type().(*types.Pointer); ok {
			return watches(p, d-1)
		}
	}
	return false
}

// passing follows text from one list or buffer to the next one.
type passFinding struct{ rule, key, where, msg string }

type passing struct {
	a      *PTA
	r      *Report
	x      *Sim
	m      *replMethods
	g      *Graph
	what   string
	byRune bool // the letters of a text are its elements
	judge  bool
	done   map[string]bool

	// from the first round
	flows    map[string]map[string]bool // buffer -> what its content is written to
	composed map[string]bool            // buffers whose content is composed
	pieces   map[string]bool            // buffers with pieces or what is composed of them
	trans    map[string]bool            // buffers with transcribed text
	keeps    map[string]bool            // loops that write what they read
	sinks    map[string]*Term
	sites    map[string]map[string]bool
	pend     []passFinding
	mixed    bool    // levels are compared in another way
	cp       *copier // how far a text is copied in pieces
	lost     string  // a form that is not followed
}

var passObj = &Obj{kind: oGlobal, id: -19}

func (p *passing) bad(rule, key string, n *GNode, s *State, format string, args ...any) {
	if !p.judge {
		return
	}
	k := rule + key + p.x.g.where(n)
	if p.done[k] {
		return
	}
	p.done[k] = true
	p.pend = append(p.pend, passFinding{rule, key + " " + fnName(n.ctx.fn), p.x.g.where(n), fmt.Sprintf("%s: %s (path: %s)", p.what, fmt.Sprintf(format, args...), s.trail())})
}

// at counts the places where something is seen.
func (p *passing) at(what string, n *GNode) {
	if p.sites[what] == nil {
		p.sites[what] = map[string]bool{}
	}
	p.sites[what][p.x.g.where(n)] = true
}

func (p *passing) unknown(n *GNode, why string) {
	if p.lost == "" {
		p.lost = why + " at " + p.x.g.where(n)
	}
}

func tokOf(t *Term) string {
	if t != nil && (t.op == "elt") {
		return t.args[0].s
	}
	return ""
}

// parts lists what a text is made of, in order: elements and contents of
// buffers. What is worked out from them is in odd.
func (p *passing) parts(t *Term, f func(t *Term, odd, comp bool)) {
	var walk func(t *Term, odd, comp bool, d int)
	walk = func(t *Term, odd, comp bool, d int) {
		if t == nil || d > 12 {
			return
		}
		switch t.op {
		case "elt":
			if t.s != ".Key" && t.s != ".Level" {
				f(t, odd, comp)
			}
			return
		case "flush":
			f(t, odd, comp)
			return
		case "from", "list", "text", "conv", "cat", "+", "iface", "lst":
		case "composed":
			comp = true
		case "len", "==", "<", "!":
			return
		default:
			odd = true
		}
		if t.op == "from" {
			if odd || comp {
				walk(t.args[0], odd, comp, d+1)
			} else {
				f(t, odd, comp)
			}
			return
		}
		for _, a := range t.args {
			walk(a, odd, comp, d+1)
		}
	}
	walk(t, false, false, 0)
}

func (p *passing) mentions(t *Term, is func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if is(t) {
		return true
	}
	for _, a := range t.args {
		if p.mentions(a, is) {
			return true
		}
	}
	return false
}

// forget drops the values of the element of the last round.
func (p *passing) forget(s *State, tok string) {
	x := p.x
	has := func(t *Term) bool { return p.mentions(t, func(u *Term) bool { return tokOf(u) == tok }) }
	// variables in memory that keep the level go on to know that it is the same
	lv, old := x.mk("elt", ".Level", x.mk("tok", tok)), x.mk("oldlv", "", x.mk("tok", tok))
	mem, again, kept := 0, false, false
	for k, t := range s.env {
		if t == lv && k.v == nil {
			again = true
			if k.o != passObj {
				mem++
			}
		}
	}
	for k, t := range s.env {
		if has(t) {
			if k.v == nil && (mem > 0 && t == lv || !again && t == old) {
				s.env[k] = old
				kept = true
				continue
			}
			delete(s.env, k)
			if t.op == "elt" && t.s == ".Level" && k.v != nil {
				x.setLo(s, x.reg(k.ctx, k.v, k.path), 0)
			}
		}
	}
	for t := range s.facts {
		if has(t) {
			delete(s.facts, t)
		}
	}
	if kept {
		x.setLo(s, old, 0)
	}
}

func sinkID(t *Term) string { return t.String() }

func (p *passing) sink(s *State, n *GNode, v ssa.Value) *Term {
	t := p.x.eval(s, n.ctx, v)
	if len(t.bases) != 1 || t.bases[0].v == nil {
		return nil
	}
	if _, ok := t.bases[0].v.(*ssa.Alloc); !ok {
		return nil
	}
	p.sinks[sinkID(t)] = t
	return t
}

func (p *passing) set(s *State, sink, f string, on bool) {
	if on {
		s.cl[f+":"+sink] = "1"
	} else {
		delete(s.cl, f+":"+sink)
	}
}

func (p *passing) is(s *State, sink, f string) bool { return s.cl[f+":"+sink] != "" }

func (p *passing) unfact(s *State, sink *Term) {
	for t := range s.facts {
		if p.mentions(t, func(u *Term) bool { return u == sink }) && t != sink {
			delete(s.facts, t)
		}
	}
}

func (p *passing) cells(sink string) (pos, alt ekey) {
	pos, alt = ekey{o: passObj, path: "lev" + sink}, ekey{o: passObj, path: "levalt" + sink}
	for _, h := range p.x.held {
		if h == pos {
			return
		}
	}
	p.x.held = append(p.x.held, pos, alt)
	return
}

var curPos, curAlt = ekey{o: passObj, path: "cur"}, ekey{o: passObj, path: "curalt"}

// same tells whether two terms are known to be equal.
func (p *passing) same(s *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	x := p.x
	a, b = x.norm(s, a), x.norm(s, b)
	if a == b || x.cmp(s, a, b) == 1 {
		return true
	}
	for _, t := range []*Term{x.mk("==", "", a, b), x.mk("==", "", b, a)} {
		if x.norm(s, t) == x.tTrue {
			return true
		}
	}
	return false
}

func (p *passing) clean(s *State, sink string) {
	for _, f := range []string{"D", "C", "X", "E"} {
		p.set(s, sink, f, false)
	}
	pos, alt := p.cells(sink)
	delete(s.env, pos)
	delete(s.env, alt)
}

// put: something is written into a buffer or list.
func (p *passing) put(s *State, n *GNode, dst *Term, t, level *Term) {
	x := p.x
	id := "list"
	if dst != nil {
		id = sinkID(dst)
	} else if p.byRune && p.copied(s, n, t) {
		return
	}
	p.parts(t, func(q *Term, odd, comp bool) {
		if odd {
			what := "something worked out from it"
			p.consume(s, n, q, id, true)
			p.bad("changed", "changed", n, s, "instead of a piece of text, %s is kept", what)
			return
		}
		switch q.op {
		case "flush":
			from := q.args[0]
			fid := sinkID(from)
			if p.flows[fid] == nil {
				p.flows[fid] = map[string]bool{}
			}
			p.flows[fid][id] = true
			if comp {
				p.composed[fid] = true
			}
			p.order(s, n, id, fid)
			if p.is(s, fid, "X") || p.is(s, fid, "E") && p.is(s, fid, "C") && !p.is(s, fid, "T") && !p.is(s, fid, "D") {
				p.bad("twice", "flush", n, s, "the content of a buffer is written a second time, because the buffer is not emptied after the first time")
			}
			p.set(s, fid, "T", false)
			if p.is(s, fid, "C") {
				p.set(s, fid, "E", true)
			}
			if level != nil && dst == nil {
				p.flushLevel(s, n, from, level)
			}
		case "elt", "from":
			p.order(s, n, id, "")
			if comp || p.composed[id] {
				p.foreign(s, n, q)
			}
			p.consume(s, n, q, id, false)
			if q.op == "elt" && level != nil {
				p.keepsLevel(s, n, q, level, "a piece of text")
			}
			if dst != nil && q.op == "elt" && q.s != ".Level" {
				p.mix(s, n, dst, q)
			}
		}
	})
	if dst == nil {
		return
	}
	real := t == nil || !t.isConst()
	if str, ok := t.isStr(); ok && str != "" {
		real = true
	}
	if real {
		if p.is(s, id, "C") && p.is(s, id, "E") {
			p.set(s, id, "X", true)
		}
		p.set(s, id, "D", true)
		p.unfact(s, dst)
	}
	p.parts(t, func(q *Term, odd, comp bool) {
		if q.op == "elt" && q.s == ".Word" || q.op == "flush" && (comp || p.pieces[sinkID(q.args[0])]) {
			p.pieces[id] = true
		}
		if q.op == "from" {
			if k, ok := q.args[2].isInt(); ok && k >= 2 {
				p.trans[id] = true
			}
		}
		if q.op == "flush" && p.trans[sinkID(q.args[0])] {
			p.trans[id] = true
		}
	})
	_ = x
}

// copied: a piece is cut out of the text.
func (p *passing) copied(s *State, n *GNode, t *Term) bool {
	x := p.x
	text, lo, hi, ok := x.piece(t)
	if !ok || p.mentions(text, func(u *Term) bool { return u.op == "elt" || u.op == "flush" }) {
		return false
	}
	p.at("pieces copied", n)
	if p.cp.known(s) && p.cp.at(s, lo) == 2 || !p.cp.known(s) && s.cl["sub"] == "" && x.cmp(s, lo, x.cInt(0)) == 2 {
		p.bad("lost", "cut", n, s, "a piece of the text does not go on where the last one ended")
	}
	s.cl["sub"] = "1"
	delete(s.cl, "subend")
	if hi.op == "len" {
		s.cl["subend"] = "1"
	}
	p.cp.reset(s, hi)
	return true
}

// otherLevels finds out whether levels are compared in another way than with
// that of the current element.
func (p *passing) otherLevels(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !isSubwords(ia.X.Type()) && !isIntSlice(ia.X.Type()) {
				continue
			}
			if _, ok := constInt(ia.Index); ok {
				continue
			}
			cur := false
			if ex, ok := ia.Index.(*ssa.Extract); ok {
				_, cur = ex.Tuple.(*ssa.Next)
			}
			for _, d := range p.x.loopInfo.of(fn) {
				cur = cur || d.body[b] && d.isIndex(ia.Index)
			}
			if !cur {
				p.mixed = true
			}
		}
	}
}

// order: what waits in a buffer comes first.
func (p *passing) order(s *State, n *GNode, id, self string) {
	for y := range p.flows {
		if y == self || y == id {
			continue
		}
		if !p.flowsTo(y, id, map[string]bool{}) {
			continue
		}
		if p.is(s, y, "D") || p.is(s, y, "T") {
			p.bad("order", "order", n, s, "text is written before the text that still waits in a buffer")
		}
	}
}

func (p *passing) flowsTo(y, id string, seen map[string]bool) bool {
	if seen[y] {
		return false
	}
	seen[y] = true
	for z := range p.flows[y] {
		if z == id || p.flowsTo(z, id, seen) {
			return true
		}
	}
	return false
}

// foreign: text is put where phonemes are composed.
func (p *passing) foreign(s *State, n *GNode, q *Term) {
	if q.op == "from" {
		q = q.args[0]
	}
	if q.op != "elt" || q.s != ".Word" {
		return
	}
	x := p.x
	lv := x.mk("elt", ".Level", q.args[0])
	p.at("pieces composed", n)
	if x.cmp(s, x.norm(s, lv), x.cInt(0)) != 2 {
		p.bad("composed", "composed", n, s, "text of level 0, which no rule speaks about, is composed as if it were phonemes")
	}
}

// consume: an element goes on.
func (p *passing) consume(s *State, n *GNode, q *Term, dst string, odd bool) {
	x := p.x
	var rep *Term
	if q.op == "from" {
		rep = q
		q = q.args[0]
		if q.op != "elt" {
			if q.op != "reg" && !q.isConst() && p.mentions(q, func(u *Term) bool { return u.op == "elt" }) {
				p.bad("changed", "changed", n, s, "the rules are given something worked out from a piece of text instead of the piece itself")
				p.parts(q, func(u *Term, _, _ bool) { p.consume(s, n, u, dst, true) })
			}
			return
		}
	}
	if q.op != "elt" || q.s != ".Word" && q.s != ".Rune" {
		return
	}
	tok := tokOf(q)
	p.keeps[tok] = true
	switch s.cl["p:"+tok] {
	case "1":
		s.cl["p:"+tok] = "w" + dst
	case "l":
	default:
		if was := s.cl["p:"+tok]; was == "w"+dst || was != "" && (p.flowsTo(was[1:], dst, map[string]bool{}) || p.flowsTo(dst, was[1:], map[string]bool{})) {
			p.bad("twice", "piece", n, s, "a piece of text is written twice")
		}
	}
	p.at("pieces passed on", n)
	if rep != nil && !odd {
		p.keepsLevel(s, n, q, rep.args[1], "what the rules leave of a piece of text")
	}
	_ = x
}

// keepsLevel: the level of an element is kept.
func (p *passing) keepsLevel(s *State, n *GNode, q, level *Term, what string) {
	x := p.x
	if q.s != ".Word" {
		return
	}
	lv := x.norm(s, x.mk("elt", ".Level", q.args[0]))
	level = x.norm(s, level)
	if p.same(s, lv, level) {
		return
	}
	if k, ok := level.isInt(); ok && k == 1 && p.x.cmp(s, lv, p.x.cInt(0)) == 2 {
		return
	}
	if level.isConst() || level.op == "+" || level.op == "-" {
		p.bad("level", "level", n, s, "%s is given level %s whatever its level was", what, level)
	}
}

// mix: letters or pieces are put together in a buffer.
func (p *passing) mix(s *State, n *GNode, dst, q *Term) {
	if p.mixed || s.cl["lv:"+tokOf(q)] == "" {
		return
	}
	x := p.x
	id := sinkID(dst)
	lv := x.mk("elt", ".Level", q.args[0])
	pos, alt := p.cells(id)
	if p.is(s, id, "D") {
		if s.env[pos] == nil && s.env[alt] == nil {
			// not known any more
			if p.is(s, id, "L") {
				ok := false
				for t, f := range s.facts {
					if t.op == "==" && f.eq == x.tTrue && (t.args[0] == lv || t.args[1] == lv) {
						ok = true
					}
				}
				if !ok {
					p.bad("merge", "mix", n, s, "pieces of different levels are put together")
				}
			}
		} else if !p.same(s, s.env[pos], lv) && !p.same(s, s.env[alt], lv) {
			ok := false
			for t, f := range s.facts {
				if t.op == "==" && f.eq == x.tTrue && (t.args[0] == lv || t.args[1] == lv) {
					ok = true
				}
			}
			if x.norm(s, lv).isConst() {
				ok = true
			}
			if !ok {
				p.bad("merge", "mix", n, s, "pieces of different levels are put together")
			}
		} else {
			p.at("pieces merged", n)
		}
	}
	p.set(s, id, "L", true)
	delete(s.env, alt)
	s.env[pos] = lv
	if t := s.env[curAlt]; t != nil {
		s.env[alt] = t
	}
}

// flushLevel: what was put together is given its level.
func (p *passing) flushLevel(s *State, n *GNode, from, level *Term) {
	id := sinkID(from)
	if p.mixed || !p.is(s, id, "L") || !p.is(s, id, "C") {
		return
	}
	pos, alt := p.cells(id)
	p.at("merged pieces", n)
	if p.same(s, s.env[pos], level) || p.same(s, s.env[alt], level) {
		return
	}
	l := p.x.norm(s, level)
	if l.isConst() || l.op == "elt" {
		p.bad("merge", "level", n, s, "what was put together is given the level of something else (%s)", l)
	}
}

// ends: a frame with its buffers ends.
func (p *passing) ends(s *State, n *GNode, ret *ssa.Return) {
	x := p.x
	var res []*Term
	for _, v := range ret.Results {
		for _, l := range pleaves(v.Type()) {
			res = append(res, x.evalP(s, n.ctx, v, l.path))
		}
	}
	has := func(is func(*Term) bool) bool {
		for _, t := range res {
			if p.mentions(t, is) {
				return true
			}
		}
		return false
	}
	if s.cl["sub"] != "" && s.cl["subend"] == "" && n.ctx == x.root.ctx && p.cp.known(s) {
		p.bad("lost", "cut end", n, s, "the last piece of the text is not kept")
	}
	for _, id := range sinkKeys(p.sinks) {
		sink := p.sinks[id]
		if sink.bases[0].ctx != n.ctx || has(func(t *Term) bool { return t == sink.bases[0] }) && !has(func(t *Term) bool { return t.op == "flush" && t.args[0] == sink }) {
			continue
		}
		out := has(func(t *Term) bool { return t.op == "flush" && t.args[0] == sink })
		p.at("buffers at the end of a function", n)
		if p.pieces[id] && has(func(t *Term) bool {
			return t.op == "worked" && p.mentions(t.args[0], func(u *Term) bool { return u.op == "flush" && u.args[0] == sink })
		}) {
			p.bad("changed", "whole", n, s, "the pieces of a text have been put together, but something worked out from them goes on instead")
		}
		if out && p.is(s, id, "X") {
			p.bad("twice", "end", n, s, "the content of a buffer goes on a second time, because the buffer is not emptied after the first time")
		}
		if p.is(s, id, "D") {
			p.bad("lost", "end", n, s, "what waits in a buffer is not written at the end")
		} else if p.is(s, id, "T") && !out && p.flows[id] != nil {
			p.bad("lost", "end", n, s, "what waits in a buffer is taken out but not kept")
		}
		for _, f := range []string{"D", "C", "X", "E", "T", "L"} {
			p.set(s, id, f, false)
		}
	}
}

func sinkKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *passing) list(v ssa.Value) bool { return isSubwords(v.Type()) }

func (p *passing) loop(n *GNode) *Domain {
	iff, ok := n.in.(*ssa.If)
	if !ok {
		return nil
	}
	for _, d := range p.x.loopInfo.of(iff.Parent()) {
		if d.guard == iff {
			return d
		}
	}
	return nil
}

func (p *passing) tok(ctx *Ctx, d *Domain) string {
	return fmt.Sprintf("%d/%d", ctx.id, d.hdr.Index) + fnName(d.fn)
}

// seq gives the list a loop reads.
func (p *passing) seq(d *Domain) ssa.Value {
	if d.kind != "count" {
		return nil
	}
	s := seqOf(linVal{d.hi.v, 0})
	if s != nil && isSubwords(s.Type()) {
		return s
	}
	return nil
}

func (p *passing) begin(s *State, n *GNode, d *Domain, tok string) {
	p.forget(s, tok)
	delete(s.env, curPos)
	delete(s.env, curAlt)
	s.cl["p:"+tok] = "1"
	x := p.x
	lt := x.mk("elt", ".Level", x.mk("tok", tok))
	x.setLo(s, lt, 0)
}

// left: a round of a loop is over.
func (p *passing) left(s *State, n *GNode, tok string) {
	if s.cl["p:"+tok] != "1" || !p.keeps[tok] {
		delete(s.cl, "p:"+tok)
		return
	}
	delete(s.cl, "p:"+tok)
	x := p.x
	tk := x.mk("tok", tok)
	w, lv := x.mk("elt", ".Word", tk), x.mk("elt", ".Level", tk)
	if str, ok := x.norm(s, w).isStr(); ok && str == "" {
		return
	}
	if _, hi := x.bounds(s, x.mk("len", "", w)); hi <= 0 {
		return
	}
	if k, ok := x.norm(s, x.mk("len", "", w)).isInt(); ok && k == 0 {
		return
	}
	if s.cl["b:"+tok] == "R" {
		l := x.norm(s, lv)
		if k, ok := l.isInt(); ok && k == 1 {
			p.at("pieces dropped", n)
			return
		}
		if lo, hi := x.bounds(s, lv); lo == 1 && hi == 1 {
			p.at("pieces dropped", n)
			return
		}
	}
	p.bad("lost", "piece", n, s, "a piece of text is read but not written")
}

func (p *passing) run(c *Ctx, root *Root) {
	a := p.a
	if c != nil {
		root = c.root
	}
	for round := 0; round < 2; round++ {
		p.judge = round == 1
		p.sinks = map[string]*Term{}
		x := a.newSim(root)
		if c != nil {
			x = a.newSim(c.root)
			x.root = &Root{name: fnName(c.fn), fn: c.fn, ctx: c}
		}
		p.x = x
		x.maxInt = 8
		x.held = []ekey{curPos, curAlt}
		p.cp = newCopierN(x, "sub")
		p.hooks()
		if c != nil {
			p.otherLevels(c.fn)
		}
		x.run(nil)
		p.r.count("abstract states", x.states)
		if round == 1 {
			p.r.sim(x)
		}
	}
}

func (p *passing) hooks() {
	x, a := p.x, p.a
	memo := map[*Ctx]bool{}
	x.opaque = func(k *Ctx) bool {
		if v, ok := memo[k]; ok {
			return v
		}
		v := func() bool {
			if k == x.root.ctx {
				return false
			}
			if p.byRune {
				return p.m.commit[k.fn] || p.m.buffer[k.fn] || !a.simpleFn(k, 3)
			}
			if k.fn.Signature.Recv() == nil && k.fn.Signature.Params().Len() == 1 && isBoolT(resultT(k.fn)) && k.fn.Signature.Results().Len() == 1 && isStringT(k.fn.Params[0].Type()) {
				return true // a kind of text
			}
			if ci, ok := k.site.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && isBoolT(resultT(k.fn)) {
				return true
			}
			if isTracing(k.fn) {
				return true
			}
			if k.fn.Signature.Recv() != nil && pkgPathOf(k.fn) == subwordPkg || p.composer(k.fn) {
				return true
			}
			if p.m.ctor[k.fn] {
				return true
			}
			for _, q := range k.fn.Params {
				if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 && isBoolT(resultT(k.fn)) {
					return false
				}
				if isTextBuf(q.Type()) && pkgPathOf(k.fn) != subwordPkg {
					return false
				}
			}
			if a.simpleFn(k, 3) {
				return false
			}
			return !a.reaches1(k, func(fn *ssa.Function) bool {
				return pkgPathOf(fn) == subwordPkg && !isTracing(fn) || p.composer(fn)
			})
		}()
		memo[k] = v
		return v
	}
	x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool {
		p.kind(s, cond, truth)
		for _, id := range sinkKeys(p.sinks) {
			if !p.is(s, id, "D") && !p.is(s, id, "C") {
				continue
			}
			for t, f := range s.facts {
				empty := false
				switch {
				case t.op == "len" && t.args[0].op == "flush" && sinkID(t.args[0].args[0]) == id:
					_, hi := x.bounds(s, t)
					empty = hi <= 0
				case t.op == "flush" && sinkID(t.args[0]) == id && f.eq != nil:
					str, ok := f.eq.isStr()
					empty = ok && str == ""
				}
				if empty {
					p.clean(s, id)
					p.set(s, id, "T", false)
				}
			}
		}
		// the level of this element is that of something else
		if cp := s.env[curPos]; cp != nil {
			t, tr := cond, truth
			for t.op == "!" {
				t, tr = t.args[0], !tr
			}
			if t.op == "==" && tr && len(t.args) == 2 {
				if t.args[0] == cp {
					s.env[curAlt] = t.args[1]
				} else if t.args[1] == cp {
					s.env[curAlt] = t.args[0]
				}
			}
		}
		d := p.loop(n)
		if d == nil {
			return true
		}
		seq := p.seq(d)
		if seq == nil {
			return true
		}
		tok := p.tok(n.ctx, d)
		base := x.eval(s, n.ctx, seq)
		p.left(s, n, tok)
		// what the list is made of goes on here
		if p.keeps[tok] {
			p.parts(base, func(q *Term, odd, comp bool) {
				switch q.op {
				case "flush":
					id := sinkID(q.args[0])
					p.set(s, id, "T", false)
					if p.is(s, id, "C") {
						p.set(s, id, "E", true)
					}
					if p.flows[id] == nil {
						p.flows[id] = map[string]bool{}
					}
					if p.trans[id] {
						s.cl["b:"+tok] = "R"
					}
				case "from":
					if e := tokOf(q.args[0]); e != "" && s.cl["p:"+e] == "1" {
						s.cl["p:"+e] = "l"
					}
					if k, ok := q.args[2].isInt(); ok && k >= 2 {
						s.cl["b:"+tok] = "R"
					}
				}
			})
			if p.judge {
				p.breaks(s, n, d)
			}
			if p.judge && (d.lo.v != nil || d.lo.k != 0 || d.hi.k != 0 || base.op == "slice") {
				p.part(s, n, d, seq)
			}
		}
		if truth == (d.in == 0) {
			p.begin(s, n, d, tok)
		} else {
			p.forget(s, tok)
			delete(s.cl, "b:"+tok)
		}
		return true
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.kind != kInstr {
			return nil
		}
		switch in := n.in.(type) {
		case *ssa.Alloc:
			if t := x.reg(n.ctx, in, ""); true {
				for _, id := range sinkKeys(p.sinks) {
					if p.sinks[id].bases[0] == t {
						p.clean(s, id)
						for _, f := range []string{"T", "L"} {
							p.set(s, id, f, false)
						}
					}
				}
			}
		case *ssa.Next:
			if in.IsString && !p.byRune {
				tok := fmt.Sprintf("let%d/%d", n.ctx.id, in.Block().Index)
				p.forget(s, tok)
				delete(s.cl, "is")
				delete(s.cl, "maybe")
				x.define(s, n.ctx, in)
				tk := x.mk("tok", tok)
				x.set(s, n.ctx, in, "#1", x.mk("elt", ".Key", tk))
				x.set(s, n.ctx, in, "#2", x.mk("elt", ".Rune", tk))
				return []*State{s}
			}
			if in.IsString && p.byRune && n.ctx == x.root.ctx {
				tok := "rune" + fnName(in.Parent())
				p.left(s, n, tok)
				end := s.clone()
				p.forget(end, tok)
				x.define(end, n.ctx, in)
				x.set(end, n.ctx, in, "#0", x.tFalse)
				x.define(s, n.ctx, in)
				p.begin(s, n, nil, tok)
				tk := x.mk("tok", tok)
				x.set(s, n.ctx, in, "#0", x.tTrue)
				x.set(s, n.ctx, in, "#1", x.mk("elt", ".Key", tk))
				x.set(s, n.ctx, in, "#2", x.mk("elt", ".Rune", tk))
				return []*State{s, end}
			}
		case *ssa.BinOp:
			if in.Op == token.ADD && isStringT(in.Type()) {
				for _, v := range []ssa.Value{in.X, in.Y} {
					t := x.eval(s, n.ctx, v)
					if p.mentions(t, func(u *Term) bool { return u.op == "elt" && u.s == ".Word" || u.op == "flush" }) {
						p.unknown(n, "texts are added up")
					}
				}
			}
		case *ssa.Return:
			p.ends(s, n, in)
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(in.Call.Args) == 2 && isSubwords(in.Type()) {
				for _, w := range p.subwords(s, n, in.Call.Args[1]) {
					p.put(s, n, nil, w[0], w[1])
				}
			}
		}
		return nil
	}
	x.after = func(s *State, n *GNode) {
		canonLoad(x, s, n)
		p.load(s, n)
	}
	x.call = func(s *State, n *GNode) []*State { return p.call(s, n) }
}

// part: not the whole list is read.
func (p *passing) part(s *State, n *GNode, d *Domain, seq ssa.Value) {
	sl, isSl := seq.(*ssa.Slice)
	base := seq
	if isSl {
		base = sl.X
	}
	// the rest may be read elsewhere
	for _, u := range *base.Referrers() {
		switch u := u.(type) {
		case *ssa.IndexAddr:
			if !d.isIndex(u.Index) {
				return
			}
		case *ssa.Slice:
			if u != sl {
				return
			}
		case *ssa.Phi, *ssa.Call:
			if c, ok := u.(*ssa.Call); ok && isBuiltin(c) {
				continue
			}
			return
		case *ssa.Store, *ssa.Return:
			return
		}
	}
	lo, okLo := d.lo.k, d.lo.v == nil
	if okLo && lo > 0 || d.hi.k < 0 || isSl && (sl.Low != nil && !zeroConst(sl.Low) || sl.High != nil) {
		p.bad("lost", "part", n, s, "not all pieces of a text are read")
	}
}

// breaks: a loop that writes what it reads ends only after the last piece.
func (p *passing) breaks(s *State, n *GNode, d *Domain) {
	for b := range d.body {
		if b == d.hdr {
			continue
		}
		for _, c := range b.Succs {
			if d.body[c] {
				continue
			}
			if _, ok := c.Instrs[len(c.Instrs)-1].(*ssa.Panic); ok {
				continue
			}
			p.bad("lost", "break", n, s, "the loop over the pieces of a text may be left before the last one")
			return
		}
	}
}

// load names the parts of the element of a loop.
func (p *passing) load(s *State, n *GNode) {
	x := p.x
	ld, ok := n.in.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || n.kind != kInstr {
		return
	}
	var ia *ssa.IndexAddr
	path := ""
	switch ad := ld.X.(type) {
	case *ssa.IndexAddr:
		ia = ad
	case *ssa.FieldAddr:
		y, ok := ad.X.(*ssa.IndexAddr)
		if !ok {
			return
		}
		ia, path = y, fieldPath(deref(ad.X.Type()), ad.Field)
	}
	if ia == nil {
		return
	}
	if isIntSlice(ia.X.Type()) {
		// the level of a letter
		k := x.eval(s, n.ctx, ia.Index)
		if k.op == "elt" && k.s == ".Key" {
			lv := x.mk("elt", ".Level", k.args[0])
			s.cl["lv:"+tokOf(k)] = "1"
			x.set(s, n.ctx, ld, "", lv)
			s.env[curPos] = lv
		}
		return
	}
	if !isSubwords(ia.X.Type()) {
		return
	}
	for _, d := range x.loopInfo.of(ld.Parent()) {
		seq := p.seq(d)
		if seq == nil || !d.body[ld.Block()] || !d.isIndex(ia.Index) || seq != ia.X && !sameSeq(p.a, n.ctx, seq, ia.X) && !sameField(seq, ia.X) {
			continue
		}
		tok := p.tok(n.ctx, d)
		tk := x.mk("tok", tok)
		for _, lf := range pleaves(ld.Type()) {
			x.set(s, n.ctx, ld, lf.path, x.mk("elt", path+lf.path, tk))
		}
		if p.byRune {
			s.cl["lv:"+tok] = "1"
		}
		s.env[curPos] = x.mk("elt", ".Level", tk)
		return
	}
}

// sameLoad tells two loads of the same field of a receiver.
func sameField(u, v ssa.Value) bool {
	a, ok1 := u.(*ssa.UnOp)
	b, ok2 := v.(*ssa.UnOp)
	if !ok1 || !ok2 || a.Op != token.MUL || b.Op != token.MUL {
		return false
	}
	f, ok1 := a.X.(*ssa.FieldAddr)
	g, ok2 := b.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.X == g.X && f.Field == g.Field
}

// subwords gives the words and levels in an argument list.
func (p *passing) subwords(s *State, n *GNode, v ssa.Value) [][2]*Term {
	x := p.x
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil
	}
	ctx, w := p.a.resolve(n.ctx, v)
	if sl, ok := w.(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			var out [][2]*Term
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				word, level := (*Term)(nil), (*Term)(nil)
				for _, u := range *ia.Referrers() {
					switch u := u.(type) {
					case *ssa.Store:
						word, level = x.evalP(s, ctx, u.Val, ".Word"), x.evalP(s, ctx, u.Val, ".Level")
					case *ssa.FieldAddr:
						for _, q := range *u.Referrers() {
							if st, ok := q.(*ssa.Store); ok {
								if isStringT(st.Val.Type()) {
									word = x.eval(s, ctx, st.Val)
								} else {
									level = x.eval(s, ctx, st.Val)
								}
							}
						}
					}
				}
				if word != nil {
					out = append(out, [2]*Term{word, level})
				}
			}
			sort.SliceStable(out, func(i, j int) bool { return false })
			return out
		}
	}
	return [][2]*Term{{x.eval(s, n.ctx, v), nil}}
}

func (p *passing) composer(fn *ssa.Function) bool {
	return strings.HasSuffix(pkgPathOf(fn), "/internal/jamo") && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 1 && isStringT(fn.Signature.Params().At(0).Type()) && isStringT(resultT(fn))
}

func (p *passing) call(s *State, n *GNode) []*State {
	x := p.x
	key, cc, call := x.key1(n)
	if cc == nil {
		return nil
	}
	fn := cc.StaticCallee()
	one := func(t *Term) []*State {
		if call != nil && t != nil {
			x.set(s, n.ctx, call, "", t)
		}
		return []*State{s}
	}
	arg := func(i int) *Term { return x.eval(s, n.ctx, cc.Args[i]) }
	if fn != nil && p.m.ctor[fn] && len(cc.Args) == 3 {
		p.at("replacers", n)
		if q := arg(0); q.op == "elt" && q.s == ".Word" {
			if k, ok := arg(2).isInt(); ok && k >= 2 && x.cmp(s, x.norm(s, x.mk("elt", ".Level", q.args[0])), x.cInt(0)) != 2 {
				p.bad("transcribed", "transcribed", n, s, "text of level 0, which no rule speaks about, is given to the rules that transcribe")
			}
		}
		return one(x.mk("from", "", arg(0), arg(1), arg(2)))
	}
	if fn != nil && p.composer(fn) {
		p.at("compositions", n)
		t := arg(0)
		p.parts(t, func(q *Term, odd, comp bool) {
			if q.op == "flush" {
				p.composed[sinkID(q.args[0])] = true
			}
		})
		return one(x.mk("composed", "", t))
	}
	if len(cc.Args) == 0 || fn == nil && !cc.IsInvoke() {
		return x.std(s, n)
	}
	if fn != nil && fn.Signature.Recv() != nil && isReplacer(fn.Signature.Recv().Type()) {
		t := arg(0)
		if t.op != "from" {
			return nil
		}
		switch {
		case call == nil || p.m.buffer[fn]:
			if len(cc.Args) == 4 {
				p.marks(s, n, t, arg(1), arg(3))
			}
		case isSubwords(call.Type()):
			return one(x.mk("list", "", t))
		case isStringT(call.Type()):
			return one(x.mk("text", "", t))
		}
		return []*State{s}
	}
	if fn != nil && fn.Signature.Recv() != nil && isTextBuf(fn.Signature.Recv().Type()) {
		dst := p.sink(s, n, cc.Args[0])
		if dst == nil {
			p.unknown(n, "a buffer is not known")
			return nil
		}
		id := sinkID(dst)
		fl := x.mk("flush", "", dst)
		switch fn.Name() {
		case "WriteString", "WriteRune", "WriteByte":
			p.put(s, n, dst, arg(1), nil)
			return []*State{s}
		case "Write":
			if isSwBuilder(fn.Signature.Recv().Type()) {
				for _, w := range p.subwords(s, n, cc.Args[1]) {
					p.put(s, n, dst, w[0], w[1])
				}
				return []*State{s}
			}
			p.put(s, n, dst, arg(1), nil)
			return []*State{s}
		case "String", "Subwords":
			if p.is(s, id, "D") || p.is(s, id, "C") {
				if p.is(s, id, "D") {
					p.set(s, id, "T", true)
				}
				p.set(s, id, "D", false)
				p.set(s, id, "C", true)
			}
			return one(fl)
		case "Len":
			if !p.is(s, id, "D") && !p.is(s, id, "C") {
				return one(x.cInt(0))
			}
			return one(x.mk("len", "", fl))
		case "Reset":
			if p.is(s, id, "D") {
				p.bad("lost", "reset", n, s, "what waits in a buffer is thrown away")
			}
			p.clean(s, id)
			p.unfact(s, dst)
			return []*State{s}
		case "Grow", "Cap":
			return []*State{s}
		}
		p.unknown(n, "a buffer is used by "+fn.Name())
		return nil
	}
	// something is worked out from a piece
	if call != nil && fn != nil && isStringT(resultT(fn)) && (fn.Blocks == nil || !analysable(fn)) {
		var as []*Term
		for i, v := range cc.Args {
			if isStringT(v.Type()) {
				as = append(as, arg(i))
			}
		}
		for _, t := range as {
			if p.mentions(t, func(u *Term) bool { return u.op == "elt" || u.op == "flush" && p.pieces[sinkID(u.args[0])] }) {
				return one(x.mk("worked", key, t))
			}
		}
	}
	return x.std(s, n)
}

// kind: what is known of the current letter.
func (p *passing) kind(s *State, cond *Term, truth bool) {
	for cond.op == "!" {
		cond, truth = cond.args[0], !truth
	}
	if !truth {
		return
	}
	x := p.x
	about := func(ctx *Ctx, v ssa.Value) bool {
		t := x.eval(s, ctx, v)
		for t.op == "conv" {
			t = t.args[0]
		}
		return t.op == "elt" && t.s == ".Rune"
	}
	if cond.op == "call unicode.IsSpace" {
		t := cond.args[0]
		if t.op == "elt" && t.s == ".Rune" {
			s.cl["is"] = "space"
		}
		return
	}
	if strings.HasPrefix(cond.op, "call unicode.") || cond.op != "reg" || cond.v == nil {
		return
	}
	v := cond.v
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	switch c := v.(type) {
	case *ssa.Next:
	case *ssa.Lookup:
		if m, ok := c.X.Type().Underlying().(*types.Map); ok && about(cond.ctx, c.Index) && isBoolT(m.Elem()) {
			s.cl["is"] = "punctuation"
		}
	case *ssa.Call:
		args := c.Call.Args
		switch {
		case c.Call.IsInvoke() && c.Call.Method.Name() == "Is" && len(args) == 1 && about(cond.ctx, args[0]):
			s.cl["is"] = "letter"
		case c.Call.StaticCallee() != nil && analysable(c.Call.StaticCallee()) && len(args) == 1 && about(cond.ctx, args[0]):
			if usesFn(c.Call.StaticCallee(), "unicode.IsSpace", 4) {
				s.cl["is"] = "space"
			} else if !usesFn(c.Call.StaticCallee(), "unicode.", 4) {
				s.cl["maybe"] = "1"
			}
		case strings.HasPrefix(callKey(&c.Call), "unicode."):
			if callKey(&c.Call) == "unicode.IsSpace" && about(cond.ctx, args[0]) {
				s.cl["is"] = "space"
			}
		default:
			s.cl["maybe"] = "1"
		}
	default:
		s.cl["maybe"] = "1"
	}
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// usesFn tells whether a function mentions another one.
func usesFn(fn *ssa.Function, key string, d int) bool {
	if d == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				f, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				k := fnKey(f)
				if k == key || strings.HasSuffix(key, ".") && strings.HasPrefix(k, key) {
					return true
				}
				if analysable(f) && usesFn(f, key, d-1) {
					return true
				}
			}
		}
	}
	return false
}

// marks: a letter is taken for text of the language.
func (p *passing) marks(s *State, n *GNode, rep, start, word *Term) {
	if start.op != "elt" || start.s != ".Key" {
		return
	}
	if k, ok := rep.args[1].isInt(); ok && k != 0 {
		p.bad("level", "mark", n, s, "letters of no meaning for the rules are given level %d, as if they had one", k)
	}
	p.at("letters marked", n)
	if s.cl["is"] == "" && s.cl["maybe"] == "" {
		p.bad("mark", "mark", n, s, "a letter which is none of the script, no punctuation of the rules and no space becomes text of the language, which may be dropped")
	}
	for word.op == "conv" {
		word = word.args[0]
	}
	switch {
	case word.op == "elt" && word.s == ".Rune":
	case p.x.norm(s, p.x.mk("elt", ".Rune", start.args[0])).isConst():
	case word.op == "worked" || word.isConst() || word.op == "elt":
		p.bad("changed", "mark", n, s, "a letter is replaced by something else while the text is partitioned")
	}
}

func newPassing(a *PTA, r *Report, m *replMethods, what string) *passing {
	return &passing{a: a, r: r, m: m, what: what, done: map[string]bool{}, flows: map[string]map[string]bool{}, composed: map[string]bool{}, pieces: map[string]bool{},
		keeps: map[string]bool{}, trans: map[string]bool{}, sinks: map[string]*Term{}, sites: map[string]map[string]bool{}}
}

func (p *passing) report() {
	for k, m := range p.sites {
		p.r.count(k, len(m))
		for _, w := range sortedKeys(m) {
			p.r.sample("%s: %s", k, w)
		}
	}
	for _, f := range p.pend {
		switch f.rule {
		case "lost", "twice", "order", "merge":
			if p.lost != "" {
				continue // not all of it is followed
			}
		}
		p.r.fail(f.rule, f.key, f.where, "%s", f.msg)
	}
	if p.byRune && len(p.keeps) == 0 && len(p.sites["pieces copied"]) == 0 {
		p.r.open("form", p.what, "%s: how the text is passed on is not known", p.what)
	}
	if p.lost != "" {
		p.r.open("form", p.what, "%s: %s", p.what, p.lost)
	}
}

func init() {
	register("C19", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("Every piece of text that a step, a merge or a split reads goes on exactly once, as it is or through a replacer made from it, to the list or buffer that is its result; only what stays at level 1 after transcribing may be dropped. A piece keeps its level.")
		r.rule("What waits in a buffer is written before what comes after it, once, and at the end; no buffer is emptied or left with text in it.")
		r.rule("Text of level 0 is not composed. Only a letter of the script, a punctuation of the rules or a space becomes text of the language.")
		m := a.replMethods()
		var roots []*Root
		for _, root := range a.roots {
			if !root.api || root.fn == nil || pkgPathOf(root.fn) != modPath {
				continue
			}
			if !a.reaches1(root.ctx, func(fn *ssa.Function) bool { return m.ctor[fn] }) {
				continue
			}
			roots = append(roots, root)
			r.count("operations", 1)
			p := newPassing(a, r, m, root.name)
			p.run(nil, root)
			p.report()
		}
		seen := map[*ssa.Function]bool{}
		for _, c := range a.ctxs {
			if !c.root.api || seen[c.fn] || pkgPathOf(c.fn) != subwordPkg || c.fn.Signature.Recv() == nil || !isSubwords(resultT(c.fn)) {
				continue
			}
			seen[c.fn] = true
			p := newPassing(a, r, m, fnName(c.fn))
			p.byRune = true
			r.count("splits and merges", 1)
			p.run(c, nil)
			p.report()
		}
		r.analysedBy(a, roots)
		r.need("operations", 2)
		r.need("splits and merges", 2)
		r.need("pieces passed on", 8)
		r.need("pieces composed", 1)
		r.need("replacers", 3)
		r.need("compositions", 2)
		r.need("letters marked", 1)
		r.need("merged pieces", 2)
	})
}
