package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: translit.Install.

func init() {
	register("C07", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("On every path of Install, each element of Translits() is added once, in a loop over all of them; as soon as one is refused nothing more is added, every element added so far and no other is removed again by its scheme, and the answer is false; the answer is true exactly if all were added.")
		r.rule("All additions and removals go to the one requested registry: the given hangulizer if there is one, the default registry otherwise.")
		root := a.rootOf(a.p.fn("translit", "Install"))
		if root == nil {
			fail("no root translit.Install")
		}
		x := a.newSim(root)
		hs := x.param(0)
		li := newLoopInfo()
		kindOf := func(name string) string {
			switch strings.TrimSuffix(name, "$bound") {
			case "UseTranslit":
				return "use"
			case "UnuseTranslit":
				return "unuse"
			}
			return ""
		}
		x.opaque = func(c *Ctx) bool {
			if kindOf(c.fn.Name()) != "" && c != root.ctx {
				return true
			}
			return c.fn.Name() == "Scheme" && a.isTranslit(c.fn) || fnKey(c.fn) == modPath+"/translit.Translits"
		}
		all := x.mk("all", "")
		// target resolves the callee of a call: what it does, to which registry.
		target := func(s *State, ctx *Ctx, cc *ssa.CallCommon) (kind string, reg *Term) {
			if cc.IsInvoke() {
				return kindOf(cc.Method.Name()), x.eval(s, ctx, cc.Value)
			}
			if f := cc.StaticCallee(); f != nil {
				k := kindOf(f.Name())
				if k != "" && f.Signature.Recv() != nil {
					return k, x.eval(s, ctx, cc.Args[0])
				}
				return k, x.mk("default", "")
			}
			t := x.eval(s, ctx, cc.Value)
			if t.op == "fn" {
				return kindOf(t.s[strings.LastIndex(t.s, ".")+1:]), x.mk("default", "")
			}
			if t.op == "method" {
				return kindOf(t.s), t.args[0]
			}
			return "", nil
		}
		registry := func(s *State, n *GNode, what string, reg *Term) {
			lo, hi := x.bounds(s, x.norm(s, x.mk("len", "", hs)))
			switch {
			case reg != nil && reg.op == "default":
				if hi != 0 {
					r.fail("registry", what+" default", x.g.where(n), "Install changes the default registry (%s) although a hangulizer may be given (path: %s)", what, s.trail())
				}
			case reg != nil && reg.op == "elem" && reg.args[0] == hs:
				if lo < 1 {
					r.fail("registry", what+" own", x.g.where(n), "Install uses the given hangulizer where none may be given (path: %s)", s.trail())
				}
				if k := s.cl["reg"]; k != "" && k != reg.String() {
					r.fail("registry", what+" mixed", x.g.where(n), "Install changes more than one registry")
				}
				s.cl["reg"] = reg.String()
			default:
				r.fail("registry", what, x.g.where(n), "Install changes a registry (%s %v) that is neither the default one nor the given hangulizer's", what, reg)
			}
		}
		// loops that add or remove
		acts := map[*ssa.BasicBlock]map[*Ctx]bool{}
		for _, n := range x.g.nodes {
			ci := n.callInstr()
			if ci == nil || kindOf(n.ctx.fn.Name()) != "" {
				continue
			}
			act := false
			for _, m := range n.succ {
				if mn := x.g.nodes[m]; mn.kind == kEntry && kindOf(mn.ctx.fn.Name()) != "" {
					act = true
				}
			}
			if !act {
				continue
			}
			r.count("call sites", 1)
			in, c := ssa.Instruction(n.in), n.ctx
			for {
				if acts[in.Block()] == nil {
					acts[in.Block()] = map[*Ctx]bool{}
				}
				acts[in.Block()][c] = true
				if c.parent == nil {
					break
				}
				in, c = c.site, c.parent
			}
		}
		active := func(ctx *Ctx, d *Domain) bool {
			for b := range d.body {
				if acts[b][ctx] {
					return true
				}
			}
			return false
		}
		x.instr = func(s *State, n *GNode) []*State {
			switch in := n.in.(type) {
			case *ssa.UnOp:
				// elements of the two lists
				if ia, ok := in.X.(*ssa.IndexAddr); ok && in.Op.String() == "*" {
					seq, _, _ := x.span(x.eval(s, n.ctx, ia.X), x.cInt(0), x.cInt(0))
					if seq == hs || seq == all || seq != nil && seq.op == "added" {
						i := x.eval(s, n.ctx, ia.Index)
						x.define(s, n.ctx, in)
						x.set(s, n.ctx, in, "", x.mk("elem", "", seq, i))
						return []*State{s}
					}
				}
			case *ssa.MakeClosure:
				if f := in.Fn.(*ssa.Function); kindOf(f.Name()) != "" && strings.HasSuffix(f.Name(), "$bound") && len(in.Bindings) == 1 {
					t := x.eval(s, n.ctx, in.Bindings[0])
					x.define(s, n.ctx, in)
					x.set(s, n.ctx, in, "", x.mk("method", f.Name(), t))
					return []*State{s}
				}
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
					if t := x.eval(s, n.ctx, ia.X); t == all {
						fail("Install changes the list of translits")
					}
				}
			}
			return nil
		}
		x.branch = func(s *State, n *GNode, cond *Term, truth bool) bool {
			br := n.in.(*ssa.If)
			li.of(n.ctx.fn)
			d := li.byGuard[br]
			if d == nil || !active(n.ctx, d) {
				return true
			}
			into := truth == (d.in == 0)
			seq := seqOf(d.hi)
			var lo, hi, base *Term
			if d.kind == "count" {
				lo, hi = x.linTerm(s, n.ctx, d.lo), x.linTerm(s, n.ctx, d.hi)
				if seq != nil {
					base, lo, hi = x.span(x.eval(s, n.ctx, seq), lo, hi)
				} else {
					base = all
				}
			}
			if s.cl["failed"] == "" {
				if d.kind != "count" || base != all || lo != x.cInt(0) || hi != x.mk("len", "", all) {
					r.fail("all", "loop", x.g.where(n), "the loop that adds translits does not range over all of Translits() (%v from %v to %v)", base, lo, hi)
					return true
				}
				if s.cl["cur"] == "todo" {
					r.fail("all", "skip", x.g.where(n), "Install may skip a translit (path: %s)", s.trail())
				}
				s.cl["cur"] = ""
				if into {
					s.cl["cur"] = "todo"
				} else {
					s.cl["main"] = "done"
				}
				return true
			}
			full := base == all && lo == x.cInt(0) && hi.String() == s.cl["failed"]
			if base != nil && base.op == "added" && lo == x.cInt(0) && hi == x.mk("len", "", base) {
				full = s.cl["unrec"] == ""
			}
			if base != nil && base.op == "nil" {
				full = s.cl["any"] == ""
			}
			if !full {
				r.fail("rollback", "range", x.g.where(n), "after a refused translit, the loop that removes ranges over %v from %v to %v, which is not exactly what has been added (path: %s)", base, lo, hi, s.trail())
			}
			if s.cl["undo"] == "todo" {
				r.fail("rollback", "skip", x.g.where(n), "Install may leave an added translit behind (path: %s)", s.trail())
			}
			s.cl["undo"] = ""
			if into {
				s.cl["undo"] = "todo"
			} else {
				s.cl["undone"] = "1"
			}
			return true
		}
		x.call = func(s *State, n *GNode) []*State {
			_, cc, call := x.key1(n)
			if cc == nil {
				return nil
			}
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" && call != nil {
				vs, ok := x.varargs(s, n.ctx, cc.Args[1])
				base := x.eval(s, n.ctx, cc.Args[0])
				if ok && len(vs) == 1 && vs[0].op == "elem" && (base.op == "added" || base.op == "nil" || base.op == "slice" || isAlloc(base)) {
					if base.op == "added" || s.cl["recs"] == "" {
						if vs[0].String() == s.cl["unrec"] {
							s.cl["unrec"] = ""
							s.cl["recs"] = "1"
							x.set(s, n.ctx, call, "", x.mk("added", ""))
						}
					}
				}
				return []*State{s}
			}
			if call != nil {
				if f := cc.StaticCallee(); f != nil && fnKey(f) == modPath+"/translit.Translits" {
					x.set(s, n.ctx, call, "", all)
					return []*State{s}
				}
				if cc.IsInvoke() && cc.Method.Name() == "Scheme" {
					x.set(s, n.ctx, call, "", x.mk("scheme", "", x.eval(s, n.ctx, cc.Value)))
					return []*State{s}
				}
			}
			kind, reg := target(s, n.ctx, cc)
			if kind == "" {
				return x.std(s, n)
			}
			arg := x.eval(s, n.ctx, cc.Args[len(cc.Args)-1])
			registry(s, n, kind, reg)
			r.count("registry changes", 1)
			if kind == "unuse" {
				if s.cl["failed"] == "" {
					r.fail("rollback", "early", x.g.where(n), "Install removes a translit before any was refused (path: %s)", s.trail())
				}
				ok := arg.op == "scheme" && arg.args[0].op == "elem" && (arg.args[0].args[0] == all || arg.args[0].args[0].op == "added")
				if ok && s.cl["undo"] == "todo" {
					idx := arg.args[0].args[1]
					if !loopIndex(x, s, li, n, idx) {
						ok = false
					}
				}
				if !ok || s.cl["undo"] != "todo" {
					r.fail("rollback", "what", x.g.where(n), "Install removes %v, which is not the translit whose turn it is (path: %s)", arg, s.trail())
				}
				s.cl["undo"] = ""
				return []*State{s}
			}
			if s.cl["failed"] != "" {
				r.fail("all", "after", x.g.where(n), "Install adds another translit after one was refused (path: %s)", s.trail())
			}
			if arg.op != "elem" || arg.args[0] != all || s.cl["cur"] != "todo" {
				r.fail("all", "what", x.g.where(n), "Install adds %v, which is not the next element of Translits() (path: %s)", arg, s.trail())
				return []*State{s}
			}
			no := s.clone()
			if call != nil {
				x.set(s, n.ctx, call, "", x.tTrue)
				x.set(no, n.ctx, call, "", x.tFalse)
			}
			s.cl["cur"], s.cl["any"], s.cl["unrec"] = "used", "1", arg.String()
			no.cl["cur"] = "used"
			no.cl["failed"] = arg.args[1].String()
			return []*State{s, no}
		}
		x.end = func(s *State, n *GNode, panics bool) {
			if panics {
				return
			}
			r.count("outcomes", 1)
			switch x.result(s, 0, "") {
			case x.tTrue:
				if s.cl["failed"] != "" {
					r.fail("answer", "true", x.g.where(n), "Install answers true although a translit was refused (path: %s)", s.trail())
				} else if s.cl["main"] != "done" || s.cl["cur"] == "todo" {
					r.fail("all", "end", x.g.where(n), "Install answers true before all translits are added (path: %s)", s.trail())
				}
			case x.tFalse:
				if s.cl["failed"] == "" {
					r.fail("answer", "false", x.g.where(n), "Install answers false although no translit was refused (path: %s)", s.trail())
				} else if s.cl["any"] != "" && s.cl["undone"] == "" || s.cl["undo"] == "todo" {
					r.fail("rollback", "missing", x.g.where(n), "Install answers false but leaves translits behind that it has added (path: %s)", s.trail())
				}
			default:
				r.fail("answer", "unknown", x.g.where(n), "the answer of Install (%v) is not decided by its additions", x.result(s, 0, ""))
			}
		}
		x.run(nil)
		r.sim(x)
		r.need("registry changes", 4)
		r.need("outcomes", 2)
	})
}

// loopIndex tells whether a term is the index of some loop around the call.
func loopIndex(x *Sim, s *State, li *loopInfo, n *GNode, idx *Term) bool {
	in, c := ssa.Instruction(n.in), n.ctx
	for {
		for _, d := range li.of(c.fn) {
			if !d.body[in.Block()] || d.kind != "count" {
				continue
			}
			if x.linTerm(s, c, linVal{d.phi, d.off}) == idx || x.linTerm(newState(), c, linVal{d.phi, d.off}) == idx {
				return true
			}
		}
		if c.parent == nil {
			return false
		}
		in, c = c.site, c.parent
	}
}

var _ types.Type
