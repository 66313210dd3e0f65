package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant folding of expressions over strings and compiled expressions, to
// know the regular expressions the code uses.

type cval struct {
	s  string
	re bool
}

type folder struct {
	a    *PTA
	glob map[*ssa.Global]*cval
	busy map[*ssa.Global]bool
}

func (a *PTA) folder() *folder {
	if a.fold == nil {
		a.fold = &folder{a, map[*ssa.Global]*cval{}, map[*ssa.Global]bool{}}
	}
	return a.fold
}

func (f *folder) global(g *ssa.Global) *cval {
	if v, ok := f.glob[g]; ok || f.busy[g] {
		return v
	}
	f.busy[g] = true
	var val ssa.Value
	n := 0
	for _, m := range g.Pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, h := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						n++
						val = st.Val
					}
				}
			}
		}
	}
	var r *cval
	if n == 1 {
		r = f.eval(val, nil, 0)
	}
	f.glob[g] = r
	return r
}

func (f *folder) eval(v ssa.Value, env map[ssa.Value]*cval, d int) *cval {
	if d > 20 {
		return nil
	}
	if c, ok := env[v]; ok {
		return c
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return &cval{s: constant.StringVal(v.Value)}
		}
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return f.global(g)
		}
	case *ssa.BinOp:
		a, b := f.eval(v.X, env, d+1), f.eval(v.Y, env, d+1)
		if v.Op == token.ADD && a != nil && b != nil {
			return &cval{s: a.s + b.s}
		}
	case *ssa.Call:
		if v.Call.IsInvoke() {
			return nil
		}
		var as []*cval
		for _, a := range v.Call.Args {
			as = append(as, f.eval(a, env, d+1))
		}
		full := func(n int) bool {
			if len(as) < n {
				return false
			}
			for _, a := range as[:n] {
				if a == nil {
					return false
				}
			}
			return true
		}
		switch callKey(&v.Call) {
		case "regexp.MustCompile":
			if full(1) {
				return &cval{as[0].s, true}
			}
		case "regexp.Regexp.ReplaceAllString":
			if full(3) && as[0].re {
				if re, err := regexp.Compile(as[0].s); err == nil {
					return &cval{s: re.ReplaceAllString(as[1].s, as[2].s)}
				}
			}
		case "strings.TrimSpace":
			if full(1) {
				return &cval{s: strings.TrimSpace(as[0].s)}
			}
		case "strings.ReplaceAll":
			if full(3) {
				return &cval{s: strings.ReplaceAll(as[0].s, as[1].s, as[2].s)}
			}
		case "regexp.QuoteMeta":
			if full(1) {
				return &cval{s: regexp.QuoteMeta(as[0].s)}
			}
		}
		fn := v.Call.StaticCallee()
		if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
			return nil
		}
		e := map[ssa.Value]*cval{}
		for i, p := range fn.Params {
			if i < len(as) && as[i] != nil {
				e[p] = as[i]
			}
		}
		for b, i := fn.Blocks[0], 0; i < len(fn.Blocks); i++ {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return f.eval(r.Results[0], e, d+1)
			}
			if len(b.Succs) != 1 {
				return nil
			}
			b = b.Succs[0]
		}
	}
	return nil
}

// exprOf gives the constant regular expression a value holds.
func (a *PTA) exprOf(ctx *Ctx, v ssa.Value) (*syntax.Regexp, string, bool) {
	_, v = a.resolve(ctx, v)
	c := a.folder().eval(v, nil, 0)
	if c == nil || !c.re {
		return nil, "", false
	}
	re, err := syntax.Parse(c.s, syntax.Perl)
	if err != nil {
		return nil, "", false
	}
	return re, c.s, true
}

// nullable tells whether an expression matches the empty string anywhere.
func nullable(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpEmptyMatch, syntax.OpStar, syntax.OpQuest:
		return true
	case syntax.OpCapture, syntax.OpPlus:
		return nullable(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min == 0 || nullable(re.Sub[0])
	case syntax.OpConcat:
		for _, s := range re.Sub {
			if !nullable(s) {
				return false
			}
		}
		return true
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if nullable(s) {
				return true
			}
		}
	}
	return false
}

// alwaysMatches tells whether an expression matches somewhere in any text.
func alwaysMatches(re *syntax.Regexp) bool {
	subs := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		subs = append([]*syntax.Regexp{}, re.Sub...)
	}
	begin, end := false, false
	for len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		begin = true
		subs = subs[1:]
	}
	for len(subs) > 0 && subs[len(subs)-1].Op == syntax.OpEndText {
		end = true
		subs = subs[:len(subs)-1]
	}
	if begin && end {
		return false
	}
	for _, s := range subs {
		if !nullable(s) {
			return false
		}
	}
	return true
}

// matchOf tells whether a value is the positions of a match: of the call
// itself or of one of all matches.
func (a *PTA) matchOf(ctx *Ctx, v ssa.Value) (*Ctx, *ssa.Call) {
	ctx, v = a.resolve(ctx, v)
	switch w := v.(type) {
	case *ssa.Call:
		if k := callKey(&w.Call); strings.HasPrefix(k, "regexp.Regexp.Find") && strings.HasSuffix(k, "Index") && !strings.Contains(k, "All") && isIntSlice(w.Type()) {
			return ctx, w
		}
	case *ssa.UnOp:
		ia, ok := w.X.(*ssa.IndexAddr)
		if !ok || w.Op != token.MUL {
			return nil, nil
		}
		c2, u := a.resolve(ctx, ia.X)
		if call, ok := u.(*ssa.Call); ok {
			if k := callKey(&call.Call); strings.HasPrefix(k, "regexp.Regexp.FindAll") && strings.HasSuffix(k, "Index") {
				return c2, call
			}
		}
	}
	return nil, nil
}

func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isIntType(s.Elem())
}

// positions adds what is known of match positions after an instruction.
func (x *Sim) positions(s *State, n *GNode) {
	a := x.a
	sizes := func(ctx *Ctx, v ssa.Value, cctx *Ctx, call *ssa.Call) {
		l := x.mk("len", "", x.eval(s, ctx, v))
		groups := 0
		if strings.Contains(callKey(&call.Call), "Submatch") {
			if re, _, ok := a.exprOf(cctx, call.Call.Args[0]); ok {
				groups = re.MaxCap()
			} else {
				return
			}
		}
		x.assume(s, x.mk("==", "", l, x.cInt(int64(2*(groups+1)))), true)
	}
	switch in := n.in.(type) {
	case *ssa.Call:
		if n.kind != kRet {
			return
		}
		if c, m := a.matchOf(n.ctx, in); m == in && c == n.ctx {
			if re, _, ok := a.exprOf(n.ctx, in.Call.Args[0]); ok && alwaysMatches(re) {
				sizes(n.ctx, in, n.ctx, in)
			}
		}
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return
		}
		if c, m := a.matchOf(n.ctx, in); m != nil {
			sizes(n.ctx, in, c, m)
			return
		}
		ia, ok := in.X.(*ssa.IndexAddr)
		if !ok {
			return
		}
		c, m := a.matchOf(n.ctx, ia.X)
		if m == nil || len(m.Call.Args) < 2 {
			return
		}
		t := x.eval(s, n.ctx, in)
		text := x.eval(s, c, m.Call.Args[1])
		k, ok := x.eval(s, n.ctx, ia.Index).isInt()
		lo := int64(-1)
		if ok && k < 2 {
			lo = 0
		}
		x.setLo(s, t, lo)
		x.setFact(s, x.mk("<=", "", t, x.mk("len", "", text)), x.tTrue)
		if ok && k == 0 {
			x.consecutive(s, n.ctx, in, ia)
		}
	}
}

// consecutive: a match starts not before the end of the previous one.
func (x *Sim) consecutive(s *State, ctx *Ctx, ld *ssa.UnOp, ia *ssa.IndexAddr) {
	elem, ok := ia.X.(*ssa.UnOp)
	if !ok {
		return
	}
	for _, d := range x.loopInfo.of(ld.Parent()) {
		if !d.body[ld.Block()] || !d.body[elem.Block()] {
			continue
		}
		for _, in := range d.hdr.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			good := true
			for i, e := range phi.Edges {
				if !d.body[d.hdr.Preds[i]] {
					c, ok := constInt(e)
					good = good && ok && c == 0
					continue
				}
				if e == phi {
					continue
				}
				u, ok := e.(*ssa.UnOp)
				if !ok {
					good = false
					break
				}
				ea, ok := u.X.(*ssa.IndexAddr)
				if !ok {
					good = false
					break
				}
				c, ok := constInt(ea.Index)
				good = good && ok && c == 1 && ea.X == elem
			}
			if good {
				t := x.eval(s, ctx, phi)
				x.setLo(s, t, 0)
				x.setFact(s, x.mk("<=", "", t, x.eval(s, ctx, ld)), x.tTrue)
			}
		}
	}
}

// offset adds what is known of a variable that is only ever zero or a
// position of a match in one text.
func (x *Sim) offset(s *State, ctx *Ctx, v ssa.Value) {
	phi, ok := v.(*ssa.Phi)
	if !ok || !isIntType(phi.Type()) {
		return
	}
	seen := map[ssa.Value]bool{}
	var src *ssa.Call
	var ok2 func(v ssa.Value) bool
	ok2 = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if c, ok := constInt(v); ok {
			return c == 0
		}
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !ok2(e) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			ia, ok := v.X.(*ssa.IndexAddr)
			if !ok || v.Op != token.MUL {
				return false
			}
			if k, ok := constInt(ia.Index); !ok || k > 1 {
				return false
			}
			c, m := x.a.matchOf(ctx, ia.X)
			if m == nil || c != ctx || len(m.Call.Args) < 2 || src != nil && src != m {
				return false
			}
			src = m
			return true
		}
		return false
	}
	if !ok2(phi) || src == nil || src.Parent() != phi.Parent() {
		return
	}
	// The text is the same throughout every loop which changes the variable.
	for p := range seen {
		phi, ok := p.(*ssa.Phi)
		if !ok {
			continue
		}
		for _, d := range x.loopInfo.of(phi.Parent()) {
			if d.body[phi.Block()] && d.body[src.Block()] && d.hdr == phi.Block() {
				return
			}
		}
	}
	t := x.eval(s, ctx, phi)
	if t.op == "int" {
		return
	}
	x.setLo(s, t, 0)
	x.setFact(s, x.mk("<=", "", t, x.mk("len", "", x.eval(s, ctx, src.Call.Args[1]))), x.tTrue)
}
