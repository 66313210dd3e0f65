package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: mapping variables in a replacement never crashes, and a replacement
// which cannot be made leaves the matched text as it was.

func init() {
	register("C21", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("Every index, slice bound, divisor, asserted type, explicit panic and nil dereference reachable from RPattern.Interpolate is discharged by the linear facts of its path, for any pattern, replacement, word and match.")
		r.rule("On every path where Interpolate fails, what it returned beside the error is not used, nothing is replaced, and the matched text is copied or left in place; where it succeeds, its answer is put in and the matched text is not kept.")
		r.Assume = append(r.Assume, "the pattern and the replacement are not nil")
		fn := a.p.methodOf("pkg/hre", "RPattern", "Interpolate")
		rt := a.rootOf(fn)
		if rt == nil {
			fail("RPattern.Interpolate is no operation")
		}
		var own []*Ctx
		for _, c := range a.ctxs {
			if c.root == rt {
				own = append(own, c)
			}
		}
		sf := &safety{a: a, r: r, root: rt, inline: true}
		sf.run(own)
		r.rule("In each of the rounds over the parts of a replacement something is written, or the replacement is reported as impossible; a value of a variable is written only after the matched one was found equal to one it is mapped from; the rounds are not left early without an error.")
		(&partRounds{a: a, r: r, root: rt}).run(rt.ctx)
		m := &mapping{a: a, r: r, fn: fn, done: map[string]bool{}}
		seen := map[*ssa.Function]bool{}
		for _, c := range a.ctxs {
			if !c.root.api || seen[c.fn] || c.fn == fn {
				continue
			}
			calls := false
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					calls = calls || ok && ci.Common().StaticCallee() == fn
				}
			}
			if calls {
				seen[c.fn] = true
				m.run(c)
			}
		}
		r.analysedBy(a, []*Root{rt})
		r.need("panic obligations", 4)
		r.need("uses of Interpolate", 1)
	})
}

type mapping struct {
	a    *PTA
	r    *Report
	fn   *ssa.Function
	done map[string]bool
}

func isWriter(key string) bool {
	switch key {
	case "bytes.Buffer.WriteString", "strings.Builder.WriteString":
		return true
	}
	return false
}

func (m *mapping) run(c *Ctx) {
	a, r := m.a, m.r
	x := a.newSim(c.root)
	x.root = &Root{name: fnName(c.fn), fn: c.fn, ctx: c}
	x.maxInt = 64
	cp := newCopier(x)
	junk := x.mk("junk", "")
	text, start, stop := ekey{o: copyObj, path: "text"}, ekey{o: copyObj, path: "start"}, ekey{o: copyObj, path: "stop"}
	r.count("uses of Interpolate", 1)
	bad := func(s *State, n *GNode, msg string) {
		k := x.g.where(n) + msg
		if m.done[k] {
			return
		}
		m.done[k] = true
		r.fail("mapping", fnName(n.ctx.fn)+" "+msg, x.g.where(n), "%s: %s (path: %s)", x.root.name, msg, s.trail())
	}
	callsIt := func(k *Ctx) bool {
		return a.reaches1(k, func(fn *ssa.Function) bool { return fn == m.fn })
	}
	x.opaque = func(k *Ctx) bool {
		if k == c || k.fn == m.fn {
			return k.fn == m.fn
		}
		if isReplCtor(k.fn) {
			return true
		}
		return !a.simpleFn(k, 3) && !callsIt(k)
	}
	usesJunk := func(s *State, ctx *Ctx, v ssa.Value) bool {
		t := x.eval(s, ctx, v)
		return t == junk || t.op == "iface" && len(t.args) == 1 && t.args[0] == junk
	}
	// keeps: a text which is the matched one
	keeps := func(s *State, t *Term) bool {
		tx, lo, hi, ok := x.piece(t)
		return ok && tx == s.env[text] && s.env[start] != nil && s.env[stop] != nil && x.cmp(s, lo, s.env[start]) == 1 && x.cmp(s, hi, s.env[stop]) == 1
	}
	x.after = func(s *State, n *GNode) { canonLoad(x, s, n) }
	repl := ekey{o: copyObj, path: "repl"}
	isRepl := func(s *State, ctx *Ctx, v ssa.Value) bool {
		if s.env[repl] == nil {
			return false
		}
		t := x.norm(s, x.eval(s, ctx, v))
		if t.op == "iface" && len(t.args) == 1 {
			t = t.args[0]
		}
		return t == x.norm(s, s.env[repl])
	}
	writes := hasWriter(c.fn, 3)
	due := func(s *State, n *GNode) {
		if s.cl["due"] == "" {
			return
		}
		delete(s.cl, "due")
		if t := s.env[repl]; writes && t != nil && x.cmp(s, t, x.cStr("")) == 1 {
			return
		}
		bad(s, n, "a replacement that could be made may be left out")
	}
	x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool {
		if s.cl["due"] == "" {
			return true
		}
		if v := emptyHere(n, truth); v != nil && isRepl(s, n.ctx, v) {
			// an empty replacement need not be written
			if st, sp := s.env[start], s.env[stop]; st != nil && sp != nil && cp.at(s, st) == 1 {
				cp.reset(s, sp)
			}
		}
		for cond.op == "!" {
			cond, truth = cond.args[0], !truth
		}
		if cond.op == "==" && truth && len(cond.args) == 2 {
			for i, t := range cond.args {
				if t == s.env[repl] && !isConstStr(cond.args[1-i]) {
					// it equals what is there
					delete(s.cl, "due")
					delete(s.cl, "made")
				}
			}
		}
		return true
	}
	x.instr = func(s *State, n *GNode) []*State {
		if s.cl["due"] != "" && n.kind == kInstr {
			switch in := n.in.(type) {
			case *ssa.Store:
				if isRepl(s, n.ctx, in.Val) {
					delete(s.cl, "due")
				}
			case *ssa.MapUpdate:
				if isRepl(s, n.ctx, in.Value) {
					delete(s.cl, "due")
				}
			case *ssa.BinOp:
				if in.Op == token.ADD && isStringT(in.Type()) && (isRepl(s, n.ctx, in.X) || isRepl(s, n.ctx, in.Y)) {
					delete(s.cl, "due")
				}
			case *ssa.Convert:
				if isRepl(s, n.ctx, in.X) {
					delete(s.cl, "due")
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(in.Call.Args) == 2 && isRepl(s, n.ctx, in.Call.Args[1]) {
					delete(s.cl, "due")
				}
			case *ssa.Return:
				for _, v := range in.Results {
					if isRepl(s, n.ctx, v) {
						delete(s.cl, "due")
					}
				}
				if n.ctx == c {
					due(s, n)
				}
			}
		}
		if s.cl["failed"] != "" {
			switch in := n.in.(type) {
			case *ssa.Store:
				if usesJunk(s, n.ctx, in.Val) && !isLocal(in.Addr) {
					bad(s, n, "the replacement is used although it could not be made")
				}
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isStringT(in.Val.Type()) && s.cl["now"] != "" {
					if st := namedOf(deref(fa.X.Type())); st != nil && st.Obj().Name() == "Replacement" {
						if !keeps(s, x.eval(s, n.ctx, in.Val)) {
							bad(s, n, "the matched text is replaced although the mapping failed")
						}
					}
				}
			case *ssa.Return:
				if n.ctx != c {
					return nil
				}
				for i, v := range in.Results {
					if usesJunk(s, n.ctx, v) {
						reported := false
						for j, w := range in.Results {
							reported = reported || j != i && isErr(w.Type()) && x.nonNil(s, x.eval(s, n.ctx, w))
						}
						if !reported {
							bad(s, n, "the replacement is returned although it could not be made")
						}
					}
				}
			}
		}
		return nil
	}
	x.call = func(s *State, n *GNode) []*State {
		key, cc, call := x.key1(n)
		if cc == nil {
			return nil
		}
		if cc.StaticCallee() == m.fn && call != nil {
			args := cc.Args // rp, p, word, m
			due(s, n)
			delete(s.cl, "now")
			delete(s.cl, "made")
			for _, k := range []ekey{text, start, stop} {
				delete(s.env, k)
			}
			var base *Term
			for _, v := range args {
				if isStringT(v.Type()) {
					s.env[text] = x.eval(s, n.ctx, v)
				}
				if isIntSlice(v.Type()) {
					base = x.eval(s, n.ctx, v)
				}
			}
			if base != nil {
				s.env[start], s.env[stop] = x.mk("elem", "0", base), x.mk("elem", "1", base)
			}
			f := s.clone()
			x.set(s, n.ctx, call, "#1", x.tNil)
			delete(f.env, repl)
			s.env[repl] = x.mk("repl", "")
			for e, t := range s.env {
				if t == s.env[repl] && e != repl {
					s.env[e] = x.mk("repl", "old")
				}
			}
			delete(s.facts, s.env[repl])
			x.set(s, n.ctx, call, "#0", s.env[repl])
			s.cl["due"], s.cl["made"] = "1", "1"
			x.set(f, n.ctx, call, "#1", x.mk("err", "map"))
			x.set(f, n.ctx, call, "#0", junk)
			f.cl["failed"], f.cl["now"] = "1", "1"
			return []*State{s, f}
		}
		if s.cl["due"] != "" && !measures(cc) {
			for _, v := range cc.Args {
				if isRepl(s, n.ctx, v) {
					delete(s.cl, "due")
				}
			}
		}
		if isWriter(key) && len(cc.Args) == 2 && s.cl["made"] != "" && keeps(s, x.eval(s, n.ctx, cc.Args[1])) {
			bad(s, n, "the matched text is kept although its replacement could be made")
		}
		if fn := cc.StaticCallee(); fn != nil && isReplCtor(fn) && s.cl["now"] != "" {
			for _, v := range cc.Args {
				if isStringT(v.Type()) && !keeps(s, x.eval(s, n.ctx, v)) {
					bad(s, n, "the matched text is replaced although the mapping failed")
				}
			}
			return nil
		}
		for _, v := range cc.Args {
			if usesJunk(s, n.ctx, v) {
				bad(s, n, "the replacement is used although it could not be made")
			}
		}
		if isWriter(key) && len(cc.Args) == 2 {
			m.write(x, cp, s, n, cc.Args[1], text, start, stop, bad)
			return nil
		}
		return x.std(s, n)
	}
	s := newState()
	cp.reset(s, x.cInt(0))
	x.run(s)
	r.sim(x)
}

// write follows the copying of the text into a buffer.
func (m *mapping) write(x *Sim, cp *copier, s *State, n *GNode, v ssa.Value, text, start, stop ekey, bad func(*State, *GNode, string)) {
	t := x.eval(s, n.ctx, v)
	if _, lo, hi, ok := x.piece(t); ok {
		if cp.at(s, lo) == 2 && s.cl["failed"] != "" {
			bad(s, n, "the text copied does not go on where it ended, after a failed mapping")
		}
		cp.reset(s, hi)
		return
	}
	// a replacement
	if st, sp := s.env[start], s.env[stop]; st != nil && sp != nil && s.cl["now"] == "" && cp.at(s, st) == 1 {
		cp.reset(s, sp)
		return
	}
	if s.cl["now"] != "" && !isConstStr(t) {
		cp.reset(s, nil)
		return
	}
	if s.cl["now"] != "" {
		if str, _ := t.isStr(); str != "" {
			bad(s, n, "something else is written although the mapping failed")
		}
		return
	}
	cp.reset(s, nil)
}

// measures: a call that only says something about a text.
func measures(cc *ssa.CallCommon) bool {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name() == "len"
	}
	f := cc.StaticCallee()
	if f == nil || f.Signature.Results().Len() != 1 || pkgPathOf(f) != "strings" && pkgPathOf(f) != "unicode/utf8" {
		return false
	}
	b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0
}

// hasWriter: a function, or what it calls, writes into a buffer.
func hasWriter(fn *ssa.Function, d int) bool {
	if fn.Blocks == nil || d == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if isWriter(callKey(c.Common())) {
					return true
				}
				if f := c.Common().StaticCallee(); f != nil && analysable(f) && f.Name() != "Interpolate" && f.Name() != "Find" && hasWriter(f, d-1) {
					return true
				}
			}
		}
	}
	return false
}

func isConstStr(t *Term) bool { _, ok := t.isStr(); return ok }

// isReplCtor tells the constructors of replacements.
func isReplCtor(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	nt := namedOf(deref(res.At(0).Type()))
	return nt != nil && nt.Obj().Name() == "Replacement" && strings.HasSuffix(fnKey(fn), "NewReplacement")
}
