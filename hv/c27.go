package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: what a source says is in the spec.

type keeper struct {
	a     *PTA
	r     *Report
	done  map[string]bool
	rnds  int
	scan  *ssa.Function
	tokT  *types.Named
	toks  map[string]int64
	adds  map[*ssa.Function]*Ctx
	pairs int
}

func (k *keeper) bad(x *Sim, s *State, n *GNode, rule, key, msg string) {
	id := rule + key
	if k.done[id] {
		return
	}
	k.done[id] = true
	k.r.fail(rule, key, x.g.where(n), "%s: %s (path: %s)", x.root.name, msg, s.trail())
}

func init() {
	register("C27", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("hsl.Parse is simulated with every token after every other: each string among the values of a pair is collected before the next token, each pair is given to the section named by the last name before a colon, with the last string before its sign as its left, before the next pair, or an error is returned.")
		r.rule("Where a section takes a pair and reports no error, it stores both the left and the right.")
		r.rule("In each loop over pairs, values and tables of ParseSpec and the sections that stores something, every round stores something or an error is returned, and the loop is not left early without one; a list is gone through from the first to the last. No function of them answers or keeps a part of a list, changes a string, takes an entry away, sorts pairs or rules or gives two rules one number.")
		r.rule("What a function of parsing keeps for later calls depends on no parameter that its key does not depend on.")
		r.rule("The lexer is simulated letter by letter, for letters, quotes and backslashes: in a string token every letter is written, but for the quotes around it and the backslash before a quote or a backslash.")
		r.Assume = append(r.Assume, "which field of the spec takes which section is left to the tests")
		k := &keeper{a: a, r: r, done: map[string]bool{}, adds: map[*ssa.Function]*Ctx{}}
		var roots []*Root
		parse := a.rootOf(a.p.fn("pkg/hsl", "Parse"))
		spec := a.rootOf(a.p.fn("", "ParseSpec"))
		for _, rt := range []*Root{parse, spec} {
			if rt == nil {
				fail("ParseSpec or hsl.Parse is no operation")
			}
			roots = append(roots, rt)
		}
		k.tokens(parse)
		k.parser(parse)
		for _, fn := range fnKeys(k.adds) {
			k.adder(k.adds[fn])
		}
		k.lexer(parse)
		k.rounds(roots)
		r.count("rounds over what is written", k.rnds)
		r.analysedBy(a, roots)
		for _, c := range []string{"tokens scanned", "values collected", "pairs handed over", "sections", "rounds over what is written"} {
			if r.Counts[c] == 0 {
				r.Open = append(r.Open, "not judged: "+c+": none found")
			}
		}
	})
}

func fnKeys(m map[*ssa.Function]*Ctx) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if fnName(out[j]) < fnName(out[i]) {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// tokens finds the function that gives the next token, and the kinds of them.
func (k *keeper) tokens(root *Root) {
	is := func(fn *ssa.Function) *types.Named {
		rs := fn.Signature.Results()
		if rs.Len() != 2 || !isStringT(rs.At(1).Type()) || pkgPathOf(fn) != modPath+"/pkg/hsl" {
			return nil
		}
		n := namedOf(rs.At(0).Type())
		if n == nil {
			return nil
		}
		if b, ok := n.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return nil
		}
		return n
	}
	best := 0
	for _, c := range k.a.ctxs {
		if c.root != root || is(c.fn) == nil {
			continue
		}
		n := 0
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && is(f) != nil {
						n++
					}
				}
			}
		}
		if n > best {
			best, k.scan, k.tokT = n, c.fn, is(c.fn)
		}
	}
	k.toks = map[string]int64{}
	if k.scan == nil {
		return
	}
	sc := k.scan.Pkg.Pkg.Scope()
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if ok && types.Identical(c.Type(), k.tokT) {
			if v, ok := constant.Int64Val(c.Val()); ok {
				k.toks[name] = v
			}
		}
	}
}

// isAdd: the call gives a section a pair.
func isAdd(cc *ssa.CallCommon) (left, right int, ok bool) {
	sig := cc.Signature()
	rs := sig.Results()
	if rs.Len() != 1 || !isErr(rs.At(0).Type()) {
		return 0, 0, false
	}
	left, right = -1, -1
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if isStringT(t) && left < 0 {
			left = i
		}
		if st, ok := t.Underlying().(*types.Slice); ok && isStringT(st.Elem()) && right < 0 {
			right = i
		}
	}
	if left < 0 || right < 0 {
		return 0, 0, false
	}
	if !cc.IsInvoke() && sig.Recv() != nil {
		left, right = left+1, right+1
	}
	return left, right, true
}

// parser follows the tokens.
func (k *keeper) parser(root *Root) {
	need := []string{"String", "Colon", "Equal", "Arrow", "Newline", "Comment", "EOF"}
	for _, t := range need {
		if _, ok := k.toks[t]; !ok {
			k.r.Open = append(k.r.Open, "not judged: the parser has no token "+t)
			return
		}
	}
	a, r := k.a, k.r
	x := a.newSim(root)
	x.maxInt = 64
	x.limit = 20000
	x.track = func(o *Obj, path string, t types.Type) bool {
		_, ok := t.Underlying().(*types.Basic)
		return ok
	}
	x.opaque = func(c *Ctx) bool {
		if c == root.ctx {
			return false
		}
		if c.fn == k.scan {
			return true
		}
		if a.reaches1(c, func(fn *ssa.Function) bool { return fn == k.scan }) {
			return false
		}
		if ci, ok := c.site.(ssa.CallInstruction); ok {
			if _, _, ok := isAdd(ci.Common()); ok {
				return true
			}
		}
		return !a.simpleFn(c, 3)
	}
	lit := func(id string) *Term { return x.mk("lit", id) }
	rename := func(s *State, old, now *Term) {
		for e, t := range s.env {
			if t == old {
				s.env[e] = now
			}
		}
		for t := range s.facts {
			if t == old {
				delete(s.facts, t)
			}
		}
	}
	name := fnName(root.fn)
	due := func(s *State, n *GNode) {
		if s.cl["value"] != "" {
			k.bad(x, s, n, "value", name, "a value of a pair may be left out")
			delete(s.cl, "value")
		}
	}
	pairDue := func(s *State, n *GNode) {
		if s.cl["pair"] != "" {
			k.bad(x, s, n, "pair", name, "a pair may be left out")
			delete(s.cl, "pair")
		}
	}
	r.Counts["tokens scanned"], r.Counts["values collected"], r.Counts["pairs handed over"] = 0, 0, 0
	x.call = func(s *State, n *GNode) []*State {
		_, cc, call := x.key1(n)
		if call == nil {
			return nil
		}
		if cc.StaticCallee() == k.scan {
			r.Counts["tokens scanned"]++
			due(s, n)
			if s.cl["in"] == "" {
				pairDue(s, n)
			}
			var out []*State
			for _, tk := range sortedKeys(k.toks) {
				u := s.clone()
				x.set(u, n.ctx, call, "#0", x.cInt(k.toks[tk]))
				u.path = &trail{u.path, tk}
				text := x.mk("text", "")
				switch tk {
				case "String":
					if s.cl["in"] != "" {
						text = lit("value")
						rename(u, text, lit("old"))
						u.cl["value"] = "1"
						break
					}
					id := "a"
					if s.cl["last"] == "a" {
						id = "b"
					}
					text = lit(id)
					rename(u, text, lit("old"))
					u.cl["last"] = id
				case "Colon":
					if s.cl["in"] == "" && s.cl["last"] != "" && s.cl["last"] != "sec" {
						rename(u, lit("sec"), lit("oldsec"))
						rename(u, lit(u.cl["last"]), lit("sec"))
						u.cl["last"] = "sec"
						u.cl["sec"] = "1"
					}
				case "Equal", "Arrow":
					if s.cl["in"] == "" && s.cl["sec"] != "" && s.cl["last"] != "" {
						u.cl["in"] = "1"
						u.cl["pair"] = "1"
						delete(u.cl, "got")
					}
				case "Newline", "Comment", "EOF", "Illegal":
					delete(u.cl, "in")
					if tk == "EOF" {
						u.cl["eof"] = "1"
					}
				}
				x.set(u, n.ctx, call, "#1", text)
				out = append(out, u)
			}
			return out
		}
		if l, _, ok := isAdd(cc); ok {
			si := a.callees[siteKey{n.ctx, n.in.(ssa.CallInstruction)}]
			if si != nil {
				for _, c := range si.internal {
					if pkgPathOf(c.fn) == modPath+"/pkg/hsl" {
						if _, ok := k.adds[c.fn]; !ok {
							k.adds[c.fn] = c
						}
					}
				}
			}
			due(s, n)
			r.Counts["pairs handed over"]++
			t := x.norm(s, x.eval(s, n.ctx, cc.Args[l]))
			if s.cl["pair"] != "" && t.op == "lit" && t.s != s.cl["last"] {
				k.bad(x, s, n, "left", name, "another string than the last one before its sign becomes the left of a pair")
			}
			if t.isConst() {
				k.bad(x, s, n, "left", name, "a constant becomes the left of a pair")
			}
			delete(s.cl, "pair")
			bad := s.clone()
			x.set(s, n.ctx, call, "", x.tNil)
			x.set(bad, n.ctx, call, "", x.mk("err", "ext", x.reg(n.ctx, call, "$")))
			return []*State{s, bad}
		}
		if key, _, _ := x.key1(n); recasts(key) && len(cc.Args) > 0 {
			if t := x.norm(s, x.eval(s, n.ctx, cc.Args[0])); t.op == "lit" {
				k.bad(x, s, n, "recast", name, "a string may not be taken as it is written")
			}
		}
		return x.std(s, n)
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.kind != kInstr {
			return nil
		}
		switch in := n.in.(type) {
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" {
				return nil
			}
			vs, ok := x.varargs(s, n.ctx, in.Call.Args[1])
			if !ok {
				delete(s.cl, "value")
				return nil
			}
			for _, t := range vs {
				if t = x.norm(s, t); t == lit("value") {
					r.Counts["values collected"]++
					delete(s.cl, "value")
					s.cl["got"] = "1"
				} else if t.op != "lit" && t.op != "text" && !t.isConst() {
					delete(s.cl, "value")
				}
			}
		case *ssa.Store:
			if _, ok := in.Addr.(*ssa.IndexAddr); ok && s.cl["value"] != "" {
				if _, ok := deref(in.Addr.(*ssa.IndexAddr).X.Type()).Underlying().(*types.Array); !ok && x.norm(s, x.eval(s, n.ctx, in.Val)) == lit("value") {
					r.Counts["values collected"]++
					delete(s.cl, "value")
				}
			}
		case *ssa.MapUpdate:
			if types.IsInterface(in.Map.Type().Underlying().(*types.Map).Elem()) && s.cl["sec"] != "" {
				t := x.norm(s, x.eval(s, n.ctx, in.Key))
				if t.op == "lit" && t.s != "sec" || t.isConst() {
					k.bad(x, s, n, "section", name, "a pair may be put in a section of another name than the last one before a colon")
				}
			}
		case *ssa.Return:
			ei := lastErr(n.ctx.fn.Signature)
			if ei >= 0 && ei < len(in.Results) {
				if t := x.norm(s, x.eval(s, n.ctx, in.Results[ei])); t != x.tNil {
					delete(s.cl, "value")
					delete(s.cl, "pair")
					return nil
				}
			}
			for _, v := range in.Results {
				if st, ok := v.Type().Underlying().(*types.Slice); ok && isStringT(st.Elem()) && s.cl["got"] != "" {
					if x.norm(s, x.eval(s, n.ctx, v)) == x.tNil {
						k.bad(x, s, n, "value", name, "the values of a pair may be left out")
					}
					delete(s.cl, "got")
				}
			}
			if n.ctx == root.ctx {
				due(s, n)
				pairDue(s, n)
				if s.cl["eof"] == "" {
					k.bad(x, s, n, "pair", "early "+name, "parsing may end before the end of the source")
				}
			}
		}
		return nil
	}
	x.run(nil)
	r.count("abstract states", x.states)
	r.sim(x)
}

// adder: a section that takes a pair stores both sides of it.
func (k *keeper) adder(c *Ctx) {
	k.r.count("sections", 1)
	var ps []*ssa.Parameter
	for _, p := range c.fn.Params {
		st, isSlice := p.Type().Underlying().(*types.Slice)
		if isStringT(p.Type()) || isSlice && isStringT(st.Elem()) {
			ps = append(ps, p)
		}
	}
	x := k.a.newSim(c.root)
	x.root = &Root{name: fnName(c.fn), fn: c.fn, ctx: c}
	x.maxInt = 8
	x.opaque = func(m *Ctx) bool { return m != c && !k.a.simpleFn(m, 3) }
	stored := func(s *State, ctx *Ctx, v ssa.Value) {
		if ctx != c {
			for i := range ps {
				s.cl["p"+itoa(i)] = "1"
			}
			return
		}
		for i, p := range ps {
			if dependsOn(v, p, map[ssa.Value]bool{}) {
				s.cl["p"+itoa(i)] = "1"
			}
		}
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.kind != kInstr {
			return nil
		}
		switch in := n.in.(type) {
		case *ssa.MapUpdate:
			stored(s, n.ctx, in.Key)
			stored(s, n.ctx, in.Value)
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				stored(s, n.ctx, in.Call.Args[1])
			}
		case *ssa.Store:
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
					stored(s, n.ctx, in.Val)
				}
			}
		case *ssa.Return:
			if n.ctx != c {
				return nil
			}
			t := x.norm(s, x.eval(s, n.ctx, in.Results[len(in.Results)-1]))
			if t != x.tNil {
				return nil
			}
			for i := range ps {
				if s.cl["p"+itoa(i)] == "" {
					k.bad(x, s, n, "stored", fnName(c.fn)+" "+itoa(i), "a pair is taken without an error, but not stored with its left and right")
				}
			}
		}
		return nil
	}
	x.call = func(s *State, n *GNode) []*State { return x.std(s, n) }
	x.run(nil)
	k.r.sim(x)
}

// dependsOn tells whether a value is made of another one.
func dependsOn(v, of ssa.Value, seen map[ssa.Value]bool) bool {
	if v == of {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	if al, ok := v.(*ssa.Alloc); ok {
		var walk func(addr ssa.Value) bool
		walk = func(addr ssa.Value) bool {
			if addr.Referrers() == nil {
				return false
			}
			for _, r := range *addr.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == addr && dependsOn(r.Val, of, seen) {
						return true
					}
				case *ssa.FieldAddr:
					if walk(r) {
						return true
					}
				case *ssa.IndexAddr:
					if walk(r) {
						return true
					}
				}
			}
			return false
		}
		return walk(al)
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOn(*op, of, seen) {
			return true
		}
	}
	return false
}

// kindOfLoop: what is gone through, if it is something the source says.
func written(d *Domain) string {
	var t types.Type
	switch d.kind {
	case "count":
		seq := seqOf(d.hi)
		if seq == nil {
			return ""
		}
		t = seq.Type()
	case "map":
		rg, ok := d.next.Iter.(*ssa.Range)
		if !ok {
			return ""
		}
		t = rg.X.Type()
	default:
		return ""
	}
	str := func(t types.Type) bool {
		if isStringT(t) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return isStringT(u.Elem())
		case *types.Array:
			return isStringT(u.Elem())
		case *types.Struct:
			n := namedOf(t)
			if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/pkg/hsl" {
				return true
			}
			// a helper struct of strings
			for i := 0; i < u.NumFields(); i++ {
				if !isStringT(u.Field(i).Type()) {
					return false
				}
			}
			return u.NumFields() > 0
		}
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if str(u.Elem()) {
			return "list"
		}
	case *types.Map:
		if str(u.Elem()) && isStringT(u.Key()) {
			return "map"
		}
	}
	return ""
}

// rounds checks the loops over what the source says.
func (k *keeper) rounds(roots []*Root) {
	seen := map[*ssa.BasicBlock]bool{}
	for _, rt := range roots {
		for _, c := range k.a.ctxs {
			if c.root != rt {
				continue
			}
			p := pkgPathOf(c.fn)
			if strings.HasPrefix(p, modPath) && !k.done["kept"+c.fn.String()] {
				k.done["kept"+c.fn.String()] = true
				k.kept(c.fn)
			}
			if p != modPath && p != modPath+"/pkg/hsl" {
				continue
			}
			if !k.done["fn"+c.fn.String()] {
				k.done["fn"+c.fn.String()] = true
				k.parts(c.fn)
				k.limits(c)
				k.changes(c.fn)
			}
			for _, d := range loopsOf(c.fn) {
				kind := written(d)
				if kind == "" || d.guard == nil || seen[d.hdr] {
					continue
				}
				seen[d.hdr] = true
				k.loop(c, d, kind)
			}
		}
	}
}

// limits: the source is read without a limit.
func (k *keeper) limits(c *Ctx) {
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			cut := false
			switch in := in.(type) {
			case ssa.CallInstruction:
				switch callKey(in.Common()) {
				case "io.LimitReader", "io.CopyN", "io.NewSectionReader":
					cut = true
				}
			case *ssa.Alloc:
				cut = qualName(deref(in.Type())) == "io.LimitedReader"
			}
			if cut && !k.done["limit"+fnName(c.fn)] {
				k.done["limit"+fnName(c.fn)] = true
				k.r.fail("limit", fnName(c.fn), k.a.p.instrPos(in), "%s reads a part of the source only", fnName(c.fn))
			}
		}
	}
}

// changes: nothing that is written is changed, taken away, put in another order
// or taken for another value.
func (k *keeper) changes(fn *ssa.Function) {
	bad := func(in ssa.Instruction, rule, what string) {
		id := rule + fnName(fn)
		if !k.done[id] {
			k.done[id] = true
			k.r.fail(rule, fnName(fn), k.a.p.instrPos(in), "%s %s", fnName(fn), what)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "delete" {
						if m, ok := in.Call.Args[0].Type().Underlying().(*types.Map); ok && isStringT(m.Key()) && !isBoolT(m.Elem()) {
							bad(in, "deleted", "takes away something that is written")
						}
					}
					continue
				}
				key := callKey(&in.Call)
				if recasts(key) && pkgPathOf(fn) == modPath && in.Call.Value != nil && in.Type() != nil && !isErr(in.Type()) {
					for _, v := range in.Call.Args {
						if isStringT(v.Type()) {
							if _, ok := v.(*ssa.Const); !ok && comesFromHSL(v, map[ssa.Value]bool{}) {
								bad(in, "recast", "changes a string that is written")
							}
						}
					}
				}
				if (strings.HasPrefix(key, "sort.") || strings.HasPrefix(key, "slices.")) && pkgPathOf(fn) == modPath && len(in.Call.Args) > 0 {
					v := in.Call.Args[0]
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					if st, ok := v.Type().Underlying().(*types.Slice); ok {
						if n := namedOf(st.Elem()); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && (n.Obj().Name() == "Pair" || n.Obj().Name() == "Rule") {
							bad(in, "order", "puts pairs or rules in another order")
						}
					}
				}
			case *ssa.IndexAddr:
				st, ok := in.X.Type().Underlying().(*types.Slice)
				if !ok || !isStringT(st.Elem()) {
					continue
				}
				if bo, ok := in.Index.(*ssa.BinOp); ok && bo.Op == token.SUB {
					if c, ok := bo.X.(*ssa.Call); ok && isBuiltin(c) {
						bad(in, "last", "takes another value than the first")
					}
				}
			case *ssa.Store:
				fa, ok := in.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(qualName(deref(fa.X.Type())), ".Rule") || !isIntT(in.Val.Type()) {
					continue
				}
				switch v := in.Val.(type) {
				case *ssa.Phi:
					hdr := false
					for _, d := range loopsOf(fn) {
						hdr = hdr || d.hdr == v.Block()
					}
					if !hdr {
						bad(in, "number", "may give two rules the same number")
					}
				case *ssa.Const:
					bad(in, "number", "may give two rules the same number")
				case *ssa.BinOp:
					if v.Op == token.REM || v.Op == token.QUO || v.Op == token.AND || v.Op == token.SHR {
						bad(in, "number", "may give two rules the same number")
					}
				}
			}
		}
	}
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// comesFromHSL: a string is read from what the HSL parser answers.
func comesFromHSL(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && pkgPathOf(f) == modPath+"/pkg/hsl" {
			return true
		}
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return strings.Contains(p.Type().String(), "/pkg/hsl.") || isStringT(p.Type()) || strings.HasPrefix(p.Type().String(), "map[string]")
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && comesFromHSL(*op, seen) {
			return true
		}
	}
	return false
}

// kept: what is kept for later calls depends on no more than the key it is kept
// under.
func (k *keeper) kept(fn *ssa.Function) {
	see := func(in ssa.Instruction, key, val ssa.Value) {
		k.r.count("entries kept for later", 1)
		for _, p := range fn.Params {
			if dependsOn(val, p, map[ssa.Value]bool{}) && !dependsOn(key, p, map[ssa.Value]bool{}) {
				k.r.fail("kept", fnName(fn), k.a.p.instrPos(in), "%s keeps for later calls what depends on %s, under a key that does not", fnName(fn), p.Name())
				return
			}
		}
	}
	global := func(v ssa.Value) bool {
		for i := 0; i < 4; i++ {
			switch x := v.(type) {
			case *ssa.Global:
				return true
			case *ssa.UnOp:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			default:
				return false
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if global(in.Map) {
					see(in, in.Key, in.Value)
				}
			case *ssa.Call:
				switch callKey(&in.Call) {
				case "sync.Map.Store", "sync.Map.LoadOrStore", "sync.Map.Swap":
					if global(in.Call.Args[0]) {
						see(in, in.Call.Args[1], in.Call.Args[2])
					}
				}
			}
		}
	}
}

// parts: what is answered or kept is no part of a list.
func (k *keeper) parts(fn *ssa.Function) {
	lists := func(t types.Type) bool {
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		if isStringT(st.Elem()) {
			return true
		}
		n := namedOf(st.Elem())
		return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	see := func(v ssa.Value, in ssa.Instruction) {
		if !lists(v.Type()) {
			return
		}
		k.r.count("lists kept", 1)
		id := "part" + fnName(fn)
		if cutList(v, map[ssa.Value]bool{}) && !k.done[id] {
			k.done[id] = true
			k.r.fail("part", fnName(fn), k.a.p.instrPos(in), "%s may keep a part of a list only", fnName(fn))
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				for _, v := range in.Results {
					see(v, in)
				}
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.FieldAddr); ok {
					see(in.Val, in)
				}
			case *ssa.MapUpdate:
				see(in.Value, in)
			}
		}
	}
}

// storesIn: a loop inside keeps something in each of its rounds or some.
func storesIn(d *Domain) bool {
	for b := range d.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				return true
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					return true
				}
			}
		}
	}
	return false
}

func (k *keeper) loop(c *Ctx, d *Domain, kind string) {
	x := k.a.newSim(c.root)
	x.root = &Root{name: fnName(c.fn), fn: c.fn, ctx: c}
	x.maxInt = 8
	x.opaque = func(m *Ctx) bool { return m != c && !k.a.simpleFn(m, 3) }
	type finding struct {
		s         *State
		n         *GNode
		rule, msg string
		there     bool
	}
	var found []finding
	stores, lists, rounds := 0, 0, 0
	over := func(s *State, n *GNode) {
		if s.cl["in"] == "" {
			return
		}
		rounds++
		if s.cl["given"] == "" {
			found = append(found, finding{s.clone(), n, "round", "what stands in the source may be left out of the spec without an error", s.cl["there"] != ""})
		}
		for key := range s.cl {
			delete(s.cl, key)
		}
	}
	give := func(s *State, list bool) {
		if s.cl["in"] != "" {
			if list {
				lists++
			}
			stores++
			s.cl["given"] = "1"
		}
	}
	x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool {
		iff, ok := n.in.(*ssa.If)
		if !ok || n.ctx != c {
			return true
		}
		if iff == d.guard {
			over(s, n)
			if truth == (d.in == 0) {
				s.cl["in"] = "1"
			}
			return true
		}
		for _, e := range x.loopInfo.of(c.fn) {
			if e.guard == iff && d.body[e.hdr] && e.hdr != d.hdr && (written(e) != "" || storesIn(e)) {
				// judged on its own
				s.cl["given"] = "1"
			}
		}
		// it is there already
		if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 1 {
			if _, ok := ex.Tuple.(*ssa.Lookup); ok && truth {
				s.cl["there"] = "1"
			}
		}
		if l, ok := iff.Cond.(*ssa.Lookup); ok && !l.CommaOk && truth {
			s.cl["there"] = "1"
		}
		return true
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.kind != kInstr {
			return nil
		}
		switch in := n.in.(type) {
		case *ssa.MapUpdate:
			give(s, false)
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					give(s, true)
				}
				return nil
			}
			if f := in.Call.StaticCallee(); in.Call.IsInvoke() || f == nil || f.Signature.Recv() != nil && pointerish(f.Signature.Recv().Type()) && f.Signature.Results().Len() <= 1 && !k.a.simple(n.ctx, in) {
				if _, _, ok := isAdd(&in.Call); ok || f == nil {
					give(s, true)
				}
			}
			if key := callKey(&in.Call); isWrite(key) {
				give(s, true)
			}
		case *ssa.Store:
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
					give(s, true)
				}
			}
		case *ssa.Return:
			if n.ctx != c || s.cl["in"] == "" {
				return nil
			}
			failed := false
			for _, v := range in.Results {
				if isErr(v.Type()) {
					failed = failed || x.norm(s, x.eval(s, n.ctx, v)) != x.tNil
				}
			}
			if !failed {
				found = append(found, finding{s, n, "early", "the rest of what stands in the source may be left out of the spec without an error", false})
			}
		}
		return nil
	}
	x.call = func(s *State, n *GNode) []*State { return x.std(s, n) }
	x.run(nil)
	k.r.sim(x)
	if stores == 0 {
		return // nothing is collected
	}
	k.rnds += rounds
	k.r.sample("loop %s", x.g.where(x.g.nodes[x.g.entry[c]]))
	key := fnName(c.fn) + " " + kind
	for _, f := range found {
		if f.there && lists == 0 {
			continue // a key which is there already
		}
		k.bad(x, f.s, f.n, f.rule, key, f.msg)
	}
	if kind == "list" {
		if d.desc {
			k.r.fail("order", key, k.a.p.instrPos(d.guard), "%s goes through a list from the last to the first", fnName(c.fn))
		} else if d.lo.v != nil || d.lo.k != 0 || d.hi.k != 0 {
			if _, ok := d.hi.v.(*ssa.Const); !ok {
				k.r.fail("whole", key, k.a.p.instrPos(d.guard), "%s does not go through the whole of a list", fnName(c.fn))
			}
		}
		if cutList(seqOf(d.hi), map[ssa.Value]bool{}) {
			k.r.fail("whole", key, k.a.p.instrPos(d.guard), "%s may go through a part of a list", fnName(c.fn))
		}
	}
}

// cutList tells whether a list may be a part of another one.
func cutList(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if cutList(e, seen) {
				return true
			}
		}
	case *ssa.Slice:
		if _, ok := deref(v.X.Type()).Underlying().(*types.Array); ok {
			return false
		}
		zero := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return v == nil || ok && c.Value != nil && constant.Sign(c.Value) == 0
		}
		if !zero(v.Low) {
			return true
		}
		if v.High == nil {
			return cutList(v.X, seen)
		}
		if zero(v.High) {
			return false // emptied to be filled again
		}
		ln, ok := v.High.(*ssa.Call)
		if ok {
			if b, ok := ln.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && ln.Call.Args[0] == v.X {
				return cutList(v.X, seen)
			}
		}
		return true
	}
	return false
}

// recasts: the library makes another string of a string.
func recasts(key string) bool {
	for _, p := range []string{"strings.", "bytes."} {
		if strings.HasPrefix(key, p) {
			f := strings.TrimPrefix(key, p)
			for _, w := range []string{"Trim", "Replace", "To", "Map", "Title", "Cut"} {
				if strings.HasPrefix(f, w) {
					return true
				}
			}
		}
	}
	return false
}

// simple: a call is followed.
func (a *PTA) simple(ctx *Ctx, call *ssa.Call) bool {
	si := a.callees[siteKey{ctx, call}]
	if si == nil {
		return false
	}
	for _, m := range si.internal {
		if !a.simpleFn(m, 3) {
			return false
		}
	}
	return len(si.internal) > 0
}

// lexer follows the letters of string tokens.
func (k *keeper) lexer(root *Root) {
	if k.scan == nil {
		k.r.Open = append(k.r.Open, "not judged: no function gives tokens")
		return
	}
	a, r := k.a, k.r
	var top *Ctx
	for _, c := range a.ctxs {
		if c.root == root && c.fn == k.scan {
			top = c
			break
		}
	}
	if top == nil {
		return
	}
	x := a.newSim(root)
	x.root = &Root{name: fnName(top.fn), fn: top.fn, ctx: top}
	x.maxInt = 8
	x.limit = 4000
	x.track = func(o *Obj, path string, t types.Type) bool { return isErr(t) || isBoolT(t) }
	x.opaque = func(c *Ctx) bool {
		if c == top {
			return false
		}
		return !a.simpleFn(c, 3) && !a.reachesOwn(c, map[*Ctx]bool{}, func(m *Ctx) bool {
			for _, b := range m.fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && readerKey(callKey(ci.Common())) {
						return true
					}
				}
			}
			return false
		})
	}
	tok := x.mk("letter", "now")
	old := x.mk("letter", "old")
	last := ekey{o: &Obj{kind: oGlobal, id: -9}, path: "last"}
	x.keep = func(e ekey) bool { return true }
	name := fnName(top.fn)
	// settle: the letter before was dropped
	settle := func(s *State) {
		if s.cl["due"] != "" {
			s.cl["lost"] = s.cl["due"]
		}
		if s.cl["pre"] != "" {
			s.cl["lost"] = "e"
		}
		delete(s.cl, "due")
		delete(s.cl, "pre")
	}
	x.call = func(s *State, n *GNode) []*State {
		key, cc, call := x.key1(n)
		if call == nil {
			return nil
		}
		switch {
		case key == "bufio.Reader.ReadRune":
			if s.cl["back"] != "" {
				delete(s.cl, "back")
				x.set(s, n.ctx, call, "#0", s.env[last])
				x.set(s, n.ctx, call, "#2", x.tNil)
				s.cl["due"] = s.cl["was"]
				s.cl["pre"] = s.cl["wpre"]
				s.cl["esc"] = s.cl["wesc"]
				return []*State{s}
			}
			r.Counts["letters read"]++
			settle(s)
			for e, t := range s.env {
				if t == tok {
					s.env[e] = old
				}
			}
			delete(s.facts, tok)
			s.cl["wesc"] = s.cl["esc"]
			esc := s.cl["esc"]
			s.cl["esc"] = ""
			var out []*State
			end := s.clone()
			x.set(end, n.ctx, call, "#2", x.mk("err", "end"))
			x.set(end, n.ctx, call, "#0", x.cInt(0))
			end.cl["was"] = ""
			end.cl["wpre"] = ""
			delete(end.env, last)
			out = append(out, end)
			for _, class := range []string{"o", "q", "b"} {
				u := s.clone()
				t := tok
				due := ""
				switch class {
				case "o":
					due = "o"
					for _, ch := range []int64{'"', '\\', '\n', -1, 0} {
						x.setNe(u, t, x.cInt(ch))
					}
					x.setLo(u, t, 1)
				case "q":
					t = x.cInt('"')
				case "b":
					t = x.cInt('\\')
				}
				if u.cl["quoted"] == "" && u.cl["first"] == "" && class == "q" {
					u.cl["quoted"] = "1"
				} else if u.cl["quoted"] != "" {
					if esc != "" {
						due = class
						if class == "o" {
							u.cl["pre"] = "1"
						}
					} else if class == "b" {
						u.cl["esc"] = "1"
						due = ""
					}
				}
				u.cl["first"] = "1"
				u.cl["was"] = due
				u.cl["wpre"] = u.cl["pre"]
				if due != "" {
					u.cl["due"] = due
				}
				u.env[last] = t
				x.set(u, n.ctx, call, "#0", t)
				x.set(u, n.ctx, call, "#2", x.tNil)
				u.path = &trail{u.path, class}
				out = append(out, u)
			}
			return out
		case key == "bufio.Reader.UnreadRune":
			if s.env[last] != nil && s.cl["back"] == "" {
				s.cl["back"] = "1"
				delete(s.cl, "due")
				delete(s.cl, "pre")
				s.cl["esc"] = s.cl["wesc"]
			}
			x.set(s, n.ctx, call, "", x.tNil)
			return []*State{s}
		case isWrite(key):
			k.lexWrote(x, s, x.norm(s, x.eval(s, n.ctx, cc.Args[len(cc.Args)-1])), tok)
			if call.Call.Signature().Results().Len() == 2 {
				x.setEq(s, x.reg(n.ctx, call, "#1"), x.tNil)
			}
			return []*State{s}
		}
		if recasts(key) {
			s.cl["cut"] = "1"
		}
		return x.std(s, n)
	}
	x.instr = func(s *State, n *GNode) []*State {
		if n.kind != kInstr {
			return nil
		}
		switch in := n.in.(type) {
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if vs, ok := x.varargs(s, n.ctx, in.Call.Args[1]); ok {
					for _, t := range vs {
						k.lexWrote(x, s, x.norm(s, t), tok)
					}
				} else {
					delete(s.cl, "due")
				}
			}
		case *ssa.Convert:
			if isStringT(in.Type()) {
				k.lexWrote(x, s, x.norm(s, x.eval(s, n.ctx, in.X)), tok)
			}
		case *ssa.Store:
			if _, ok := in.Addr.(*ssa.IndexAddr); ok {
				k.lexWrote(x, s, x.norm(s, x.eval(s, n.ctx, in.Val)), tok)
			}
		case *ssa.BinOp:
			if in.Op == token.ADD && isStringT(in.Type()) {
				for _, v := range []ssa.Value{in.X, in.Y} {
					k.lexWrote(x, s, x.norm(s, x.eval(s, n.ctx, v)), tok)
				}
			}
		case *ssa.Return:
			if n.ctx != top {
				return nil
			}
			settle(s)
			if t, ok := x.norm(s, x.eval(s, n.ctx, in.Results[0])).isInt(); ok && t == k.toks["String"] {
				r.Counts["strings scanned"]++
				if s.cl["cut"] != "" {
					k.bad(x, s, n, "recast", name, "a string may not be taken as it is written")
				}
				if l := s.cl["lost"]; l != "" {
					what := map[string]string{"o": "a letter", "q": "an escaped quote", "b": "an escaped backslash", "e": "a backslash before another letter"}[l]
					k.bad(x, s, n, "letter", name+" "+l, what+" of a string may be left out")
				}
			}
		}
		return nil
	}
	r.Counts["letters read"], r.Counts["strings scanned"] = 0, 0
	x.run(nil)
	r.count("abstract states", x.states)
	r.sim(x)
}

// lexWrote: something is added to the text of a token.
func (k *keeper) lexWrote(x *Sim, s *State, t, tok *Term) {
	for t.op == "conv" && len(t.args) == 1 {
		t = t.args[0]
	}
	if i, ok := t.isInt(); ok && i == '\\' || t.isConst() && strings.Contains(t.s, "\\") {
		delete(s.cl, "pre")
	} else if !t.isConst() && t.op != "letter" {
		delete(s.cl, "pre")
	}
	switch s.cl["due"] {
	case "o":
		if t == x.norm(s, tok) || !t.isConst() && t.op != "letter" {
			delete(s.cl, "due")
		}
	case "q":
		if i, ok := t.isInt(); ok && i == '"' || strings.Contains(t.s, "\"") && t.isConst() {
			delete(s.cl, "due")
		}
	case "b":
		if i, ok := t.isInt(); ok && i == '\\' || strings.Contains(t.s, "\\") && t.isConst() {
			delete(s.cl, "due")
		}
	}
}
