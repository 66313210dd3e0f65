package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// letters follows the rounds of a loop over letters: in each one the letter is
// given to the step, or has been asked about in the way that lets it out.
type letters struct {
	s     *stage
	x     *Sim
	st    int
	d     *Domain // nil: the function is called for each letter
	own   *Ctx
	given func(n *GNode) bool
	// what has to be asked: all of these, or one of these
	all  []string
	one  []string
	what string
	done map[string]bool
	rnds int
}

func (l *letters) reset(s *State) {
	for k := range s.cl {
		if strings.HasPrefix(k, "q:") || k == "in" || k == "given" {
			delete(s.cl, k)
		}
	}
}

// over: a round ends.
func (l *letters) over(s *State, n *GNode) {
	if s.cl["in"] == "" {
		return
	}
	l.rnds++
	ok := s.cl["given"] != "" || s.cl["q:unknown"] != ""
	if !ok && len(l.all) > 0 {
		ok = true
		for _, k := range l.all {
			ok = ok && s.cl["q:"+k] != ""
		}
	}
	for _, k := range l.one {
		ok = ok || s.cl["q:"+k] != ""
	}
	l.reset(s)
	if ok {
		return
	}
	key := fnName(n.ctx.fn)
	if l.done[key] {
		return
	}
	l.done[key] = true
	l.s.r.fail("letter", stepNames[l.st]+" "+key, l.x.g.where(n), "%s: %s (path: %s)", l.s.root.name, l.what, s.trail())
}

// asked notes what is known about the letter.
func (l *letters) asked(s *State, cond *Term, truth bool) {
	for cond.op == "!" {
		cond, truth = cond.args[0], !truth
	}
	note := func(k string) {
		if truth {
			s.cl["q:"+k] = "1"
		} else {
			s.cl["q:not "+k] = "1"
		}
	}
	if cond.op == "call unicode.IsSpace" {
		note("space")
		return
	}
	if cond.op == "call unicode.IsPunct" {
		note("apunct")
		return
	}
	if cond.op == "==" && len(cond.args) == 2 {
		for _, t := range cond.args {
			if k, ok := t.isInt(); ok && k == 0x200b {
				note("zwsp")
				return
			}
		}
	}
	if strings.HasPrefix(cond.op, "call unicode.") || cond.op != "reg" || cond.v == nil {
		if strings.HasPrefix(cond.op, "call ") && !strings.HasPrefix(cond.op, "call unicode.") {
			s.cl["q:unknown"] = "1"
		}
		return
	}
	v := cond.v
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	switch c := v.(type) {
	case *ssa.Next:
	case *ssa.Lookup:
		if m, ok := c.X.Type().Underlying().(*types.Map); ok {
			if b, ok := m.Key().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				p := l.s.o.srcPath(cond.ctx, c.X)
				switch {
				case strings.HasSuffix(p, "uncts"):
					note("punct")
				case strings.HasSuffix(p, "etters"):
					note("letters")
				default:
					note("punct")
					note("letters")
				}
				return
			}
			if isBoolT(m.Elem()) {
				note("apunct")
				return
			}
		}
		s.cl["q:unknown"] = "1"
	case *ssa.Call:
		switch {
		case runeMethod(c.Common(), "Is", types.Bool):
			note("script")
		case strings.HasPrefix(callKey(c.Common()), "unicode."):
			if callKey(c.Common()) == "unicode.IsSpace" {
				note("space")
			}
			if callKey(c.Common()) == "unicode.IsPunct" {
				note("apunct")
			}
		case c.Call.StaticCallee() != nil && analysable(c.Call.StaticCallee()) && usesFn(c.Call.StaticCallee(), "unicode.IsSpace", 4):
			note("space")
		default:
			s.cl["q:unknown"] = "1"
		}
	default:
		s.cl["q:unknown"] = "1"
	}
}

func (l *letters) run(c *Ctx) {
	a := l.s.a
	x := a.newSim(c.root)
	x.root = &Root{name: fnName(c.fn), fn: c.fn, ctx: c}
	l.x = x
	l.own = c
	l.done = map[string]bool{}
	x.maxInt = 8
	memo := map[*Ctx]bool{}
	x.opaque = func(k *Ctx) bool {
		if k == c {
			return false
		}
		v, ok := memo[k]
		if !ok {
			v = true
			ci, _ := k.site.(ssa.CallInstruction)
			switch {
			case ci == nil || ci.Common().IsInvoke() || isTracing(k.fn) || pkgPathOf(k.fn) == subwordPkg:
			case a.reaches1(k, func(fn *ssa.Function) bool {
				return fn.Name() == "Normalize" || fn.Name() == "Is" || fn.Name() == "LocalizePunct"
			}):
				v = false
			case k.fn.Signature.Results().Len() == 1 && isBoolT(resultT(k.fn)) && usesFn(k.fn, "unicode.IsSpace", 4):
				// a kind of letter
				v = usesLoop(k.fn, 3)
			default:
				v = !a.simpleFn(k, 3)
			}
			memo[k] = v
		}
		return v
	}
	x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool {
		if l.d != nil && n.ctx == c {
			if iff, ok := n.in.(*ssa.If); ok && l.d.guard == iff {
				l.over(s, n)
				if truth == (l.d.in == 0) {
					s.cl["in"] = "1"
				}
				return true
			}
		}
		if s.cl["in"] != "" {
			l.asked(s, cond, truth)
			if iff, ok := n.in.(*ssa.If); ok && n.ctx != c {
				// the place of the letter is compared by a helper
				if b, ok := iff.Cond.(*ssa.BinOp); ok {
					if bt, ok := b.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
						s.cl["q:unknown"] = "1"
					}
				}
			}
		}
		return true
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.kind != kInstr {
			return nil
		}
		if l.given(n) {
			s.cl["given"] = "1"
		}
		if ret, ok := n.in.(*ssa.Return); ok && n.ctx == c && l.d == nil {
			_ = ret
			l.over(s, n)
		}
		return nil
	}
	x.call = func(s *State, n *GNode) []*State { return x.std(s, n) }
	start := newState()
	if l.d == nil {
		start.cl["in"] = "1"
	}
	x.run(start)
	l.s.r.count("rounds over letters", l.rnds)
	l.s.r.count("abstract states", x.states)
	l.s.r.sim(x)
}

// usesLoop: a function, or what it calls, has a loop.
func usesLoop(fn *ssa.Function, d int) bool {
	if fn.Blocks == nil || d == 0 {
		return false
	}
	if len(loopsOf(fn)) > 0 {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && analysable(f) && usesLoop(f, d-1) {
					return true
				}
			}
		}
	}
	return false
}

// eachLetter checks the loops that normalize letters and that take letters for
// meaningful.
func (s *stage) eachLetter() {
	seen := map[*Domain]bool{}
	for _, n := range s.of[sNormScript] {
		given := func(n *GNode) bool {
			ci, ok := n.in.(ssa.CallInstruction)
			return ok && runeMethod(ci.Common(), "Normalize", types.Int32)
		}
		what := "a letter may be left as it is although it belongs to the script and is none the spec has put in"
		if !given(n) {
			// strings.Map
			si := s.a.callees[siteKey{n.ctx, n.in.(ssa.CallInstruction)}]
			for _, c := range si.internal {
				l := &letters{s: s, st: sNormScript, given: given, one: []string{"letters", "not script"}, what: what}
				l.run(c)
			}
			continue
		}
		ls := s.around(n)
		if len(ls) == 0 || ls[0].d.guard == nil || seen[ls[0].d] {
			continue
		}
		seen[ls[0].d] = true
		l := &letters{s: s, st: sNormScript, d: ls[0].d, given: given, one: []string{"letters", "not script"}, what: what}
		l.run(ls[0].ctx)
	}
	for _, n := range s.of[sLocalize] {
		ls := s.around(n)
		if len(ls) == 0 || ls[0].d.guard == nil || seen[ls[0].d] {
			continue
		}
		seen[ls[0].d] = true
		given := func(n *GNode) bool {
			ci, ok := n.in.(ssa.CallInstruction)
			return ok && runeMethod(ci.Common(), "LocalizePunct", types.String)
		}
		l := &letters{s: s, st: sLocalize, d: ls[0].d, given: given, one: []string{"not apunct", "zwsp"},
			what: "a punctuation may be left as it is although the script has its own"}
		l.run(ls[0].ctx)
	}
	m := s.a.replMethods()
	for _, n := range s.g.nodes {
		ci, ok := n.in.(ssa.CallInstruction)
		if !ok || n.kind != kInstr || n.ctx.fn.Pkg == nil || n.ctx.fn.Pkg.Pkg.Path() != modPath {
			continue
		}
		if c := ci.Common().StaticCallee(); c == nil || !m.buffer[c] {
			continue
		}
		ls := s.around(n)
		if len(ls) != 1 || ls[0].d.guard == nil || seen[ls[0].d] {
			continue
		}
		if seq, _ := s.seqValue(ls[0]); seq == nil || !isStringT(seq.Type()) && seq.Type().Underlying().String() != "[]rune" && seq.Type().Underlying().String() != "[]int32" {
			continue
		}
		seen[ls[0].d] = true
		given := func(n *GNode) bool {
			ci, ok := n.in.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() != nil && m.buffer[ci.Common().StaticCallee()]
		}
		l := &letters{s: s, st: sPartition, d: ls[0].d, given: given, all: []string{"not script", "not punct", "not space"},
			what: "a letter of the script, a punctuation of the rules or a space may be taken for one without meaning"}
		l.run(ls[0].ctx)
	}
}
