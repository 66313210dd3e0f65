package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: registries of translits.

func (a *PTA) translitMap(t *types.Map) bool {
	return qualName(t.Elem()) == modPath+".Translit"
}

func init() {
	register("C06", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("Adding inserts into the registry of its receiver only, under the scheme the translit itself names, only where the same scheme is known to be free since the lock was taken, and answers true exactly then. Removing deletes only its own scheme, in every case where it is present, and answers its presence.")
		r.rule("A listing is a new map that receives every entry under its own key. New gives every hangulizer an empty registry made for it alone. Only these operations change a registry; all package-level operations use one registry, all methods the receiver's.")
		type op struct {
			kind string // add, remove, list
			root *Root
			meth bool
		}
		var ops []op
		for _, q := range []struct{ kind, name string }{{"add", "UseTranslit"}, {"remove", "UnuseTranslit"}, {"list", "Translits"}} {
			root := a.rootOf(a.p.fn("", q.name))
			if root == nil {
				fail("no root %s", q.name)
			}
			ops = append(ops, op{q.kind, root, false})
			for _, m := range a.implRoots("", "Hangulizer", q.name) {
				ops = append(ops, op{q.kind, m, true})
			}
		}
		forms := map[bool]map[string]string{false: {}, true: {}}
		regs := map[bool]map[*Obj]bool{false: {}, true: {}}
		for _, o := range ops {
			o := o
			root := o.root
			x := a.newSim(root)
			base := 0
			if o.meth {
				base = 1
			}
			fresh := func(m *Term) bool {
				if m.op != "reg" || m.ctx == nil || m.ctx.root != root {
					return false
				}
				_, ok := m.v.(*ssa.MakeMap)
				return ok
			}
			note := func(n *GNode, m *Term, v ssa.Value) bool {
				if fresh(m) {
					return false
				}
				for _, el := range a.pts(n.ctx, v) {
					if ob := canon(el.o); ob.ctx == nil || ob.ctx.root != root {
						regs[o.meth][ob] = true
					}
				}
				form := m.String()
				if o.meth {
					form = strings.ReplaceAll(form, x.param(0).String(), "%")
					if !strings.Contains(form, "%") {
						r.fail("registry", root.name, x.g.where(n), "%s works on a registry that is not its receiver's (%s)", root.name, m)
					}
				} else if len(m.bases) > 0 || !strings.Contains(form, "&g") {
					r.fail("registry", root.name, x.g.where(n), "%s does not work on the default registry (%s)", root.name, m)
				}
				forms[o.meth][form] = root.name
				return true
			}
			schemeOf := func(k *Term) bool {
				if o.kind == "list" {
					return false
				}
				if o.kind == "add" {
					return k.op == "scheme" && k.args[0] == x.norm(nil2, x.param(base))
				}
				return k == x.param(base)
			}
			mm := &mapModel{x: x, is: a.translitMap}
			mm.onLookup = func(s *State, n *GNode, m, k *Term) {
				r.count("registry operations", 1)
				note(n, m, n.in.(*ssa.Lookup).X)
			}
			mm.onInsert = func(s *State, n *GNode, m, k *Term, val func(string) *Term) {
				r.count("registry operations", 1)
				if !note(n, m, n.in.(*ssa.MapUpdate).Map) {
					// filling a new map
					if s.cl["it"] != "" && k.String() == s.cl["itk"] && (val("").String() == s.cl["itv"] || val("").op == "at" && val("").args[1] == k && val("").args[0].String() == s.cl["itm"]) {
						s.cl["it"] = ""
						s.cl["copy"] = m.String()
					} else {
						r.fail("listing", root.name+" extra", x.g.where(n), "%s puts something into the listing that is not an entry of the registry under its own key", root.name)
					}
					return
				}
				if o.kind != "add" {
					r.fail("writes", root.name, x.g.where(n), "%s inserts into a registry", root.name)
					return
				}
				if !schemeOf(k) {
					r.fail("scheme", root.name, x.g.where(n), "%s adds a translit under %s, not under the scheme of the translit itself", root.name, k)
				}
				if v := val(""); v != x.param(base) {
					r.fail("value", root.name, x.g.where(n), "%s adds %s, not the given translit", root.name, v)
				}
				if f := s.facts[x.mk("present", "", m, k)]; f.eq != x.tFalse {
					r.fail("first-wins", root.name, x.g.where(n), "%s may overwrite a translit which is already registered: the scheme is not known to be free here (path: %s)", root.name, s.trail())
				}
				s.cl["ins"] += "1"
			}
			mm.onDelete = func(s *State, n *GNode, m, k *Term) {
				r.count("registry operations", 1)
				if !note(n, m, n.in.(ssa.CallInstruction).Common().Args[0]) {
					return
				}
				if o.kind != "remove" {
					r.fail("writes", root.name+" delete", x.g.where(n), "%s deletes from a registry", root.name)
					return
				}
				if !schemeOf(k) {
					r.fail("scheme", root.name, x.g.where(n), "%s removes %s, not the given scheme", root.name, k)
				}
				s.cl["del"] = "1"
			}
			mm.onClear = func(s *State, n *GNode, m *Term) {
				if !fresh(m) {
					r.fail("writes", root.name+" clear", x.g.where(n), "%s empties a registry", root.name)
				}
			}
			x.opaque = func(c *Ctx) bool { return c.fn.Name() == "Scheme" && a.isTranslit(c.fn) }
			x.instr = func(s *State, n *GNode) []*State {
				switch in := n.in.(type) {
				case *ssa.Range:
					if mt, ok := in.X.Type().Underlying().(*types.Map); ok && a.translitMap(mt) {
						note(n, x.eval(s, n.ctx, in.X), in.X)
					}
				case *ssa.Next:
					rg, ok := in.Iter.(*ssa.Range)
					if !ok {
						return nil
					}
					mt, ok := rg.X.Type().Underlying().(*types.Map)
					if !ok || !a.translitMap(mt) {
						return nil
					}
					if o.kind == "list" && s.cl["it"] != "" {
						r.fail("listing", root.name+" skip", x.g.where(n), "%s may leave an entry out of the listing (path: %s)", root.name, s.trail())
					}
					x.define(s, n.ctx, in)
					no := s.clone()
					x.set(s, n.ctx, in, "#0", x.tTrue)
					x.set(no, n.ctx, in, "#0", x.tFalse)
					s.cl["it"] = "1"
					s.cl["itm"] = x.eval(s, n.ctx, rg.X).String()
					x.setFact(s, x.mk("present", "", x.eval(s, n.ctx, rg.X), x.reg(n.ctx, in, "#1")), x.tTrue)
					s.cl["itk"] = x.reg(n.ctx, in, "#1").String()
					s.cl["itv"] = x.reg(n.ctx, in, "#2").String()
					no.cl["it"] = ""
					no.cl["done"] = "1"
					return []*State{s, no}
				}
				before := ""
				if in, ok := n.in.(*ssa.Lookup); ok && mm.tracked(in.X) {
					before = "1"
				}
				out := mm.instr(s, n)
				if before != "" {
					in := n.in.(*ssa.Lookup)
					for _, t := range out {
						m, k := x.eval(t, n.ctx, in.X), x.eval(t, n.ctx, in.Index)
						if !schemeOf(k) {
							continue
						}
						if f := t.facts[x.mk("present", "", m, k)]; f.eq != nil {
							t.cl["present"] = f.eq.s
						}
					}
				}
				return out
			}
			x.call = func(s *State, n *GNode) []*State {
				mm.unlocked(s, n)
				key, cc, call := x.key1(n)
				if call == nil {
					return nil
				}
				switch {
				case key == modPath+".Translit.Scheme":
					x.set(s, n.ctx, call, "", x.mk("scheme", "", x.eval(s, n.ctx, cc.Value)))
					return []*State{s}
				case key == "maps.clone" || key == "maps.Clone":
					src := unbox(x.eval(s, n.ctx, cc.Args[0]))
					note(n, src, cc.Args[0])
					x.set(s, n.ctx, call, "", x.mk("clone", "", src))
					return []*State{s}
				}
				return x.std(s, n)
			}
			x.end = func(s *State, n *GNode, panics bool) {
				if panics {
					return
				}
				r.count("outcomes", 1)
				res := x.result(s, 0, "")
				if o.kind == "list" {
					if res != nil && strings.Contains(res.String(), "clone(") {
						return
					}
					if res != nil && res.op == "nil" {
						for t, f := range s.facts {
							if f.eq == x.tNil && !fresh(t) {
								return // a copy of no map
							}
						}
					}
					if res == nil || !fresh(res) {
						r.fail("listing", root.name+" fresh", x.g.where(n), "%s does not return a map made for this call (%v)", root.name, res)
						return
					}
					if s.cl["it"] != "" || s.cl["done"] == "" {
						r.fail("listing", root.name+" all", x.g.where(n), "%s may return before all entries are listed (path: %s)", root.name, s.trail())
					}
					if c := s.cl["copy"]; c != "" && c != res.String() {
						r.fail("listing", root.name+" other", x.g.where(n), "%s fills another map than the one it returns", root.name)
					}
					return
				}
				if res != x.tTrue && res != x.tFalse {
					r.fail("answer", root.name, x.g.where(n), "the answer of %s (%v) is not decided by whether the scheme is registered (path: %s)", root.name, res, s.trail())
					return
				}
				if o.kind == "add" {
					if (res == x.tTrue) != (s.cl["ins"] == "1") {
						r.fail("answer", root.name, x.g.where(n), "%s answers %s although the translit was %sadded (path: %s)", root.name, res.s[2:], map[bool]string{true: "", false: "not "}[s.cl["ins"] != ""], s.trail())
					}
					if res == x.tFalse && s.cl["present"] != "b:true" {
						r.fail("answer", root.name+" free", x.g.where(n), "%s refuses a translit although its scheme is not known to be taken (path: %s)", root.name, s.trail())
					}
					return
				}
				want := s.cl["present"]
				if want == "" {
					r.fail("answer", root.name, x.g.where(n), "%s answers without looking the scheme up (path: %s)", root.name, s.trail())
				} else if want != res.s {
					r.fail("answer", root.name, x.g.where(n), "%s answers %s where the scheme is %spresent (path: %s)", root.name, res.s[2:], map[bool]string{true: "", false: "not "}[want == "b:true"], s.trail())
				} else if res == x.tTrue && s.cl["del"] == "" {
					r.fail("kept", root.name, x.g.where(n), "%s answers true without removing the scheme (path: %s)", root.name, s.trail())
				}
			}
			x.run(nil)
			r.sim(x)
		}
		for _, meth := range []bool{false, true} {
			if len(forms[meth]) > 1 {
				r.fail("registry", "differ", "translit.go", "operations of the same registry work on different maps: %s", strings.Join(sortedKeys(forms[meth]), " / "))
			}
		}

		// New
		nw := a.rootOf(a.p.fn("", "New"))
		if nw == nil {
			fail("no root New")
		}
		made := 0
		for o := range regs[true] {
			if o.ctx == nil || o.ctx.root != nw || o.kind == oGlobal {
				if o.user {
					continue
				}
				r.fail("isolation", o.String(), "hangulize.go", "a hangulizer's own registry may be %s, which is not made for that hangulizer", o)
				continue
			}
			if _, ok := o.site.(*ssa.MakeMap); !ok || reachableFromGlobals(a, o) {
				r.fail("isolation", o.String(), "hangulize.go", "the registry of a new hangulizer (%s) is not a new map of its own", o)
			}
			made++
		}
		if made == 0 {
			r.fail("isolation", "none", "hangulize.go", "New makes no registry of its own for the hangulizer")
		}
		g := a.graph(nw)
		for _, n := range g.nodes {
			if mu, ok := n.in.(*ssa.MapUpdate); ok {
				if mt, ok := mu.Map.Type().Underlying().(*types.Map); ok && a.translitMap(mt) {
					r.fail("isolation", "filled", g.where(n), "New puts translits into the registry of a new hangulizer")
				}
			}
		}
		// Other operations leave registries alone; the package-level function
		// transcribes with the default registry.
		isReg := func(o *Obj) bool { return regs[false][o] || regs[true][o] }
		for _, root := range a.roots {
			if !root.api {
				continue
			}
			g := a.graph(root)
			for _, n := range g.nodes {
				if n.in == nil {
					continue
				}
				a.accesses(n.ctx, n.in, func(ac Access) {
					if !isReg(ac.o) || !strings.HasPrefix(ac.path, "{}") {
						return
					}
					r.count("registry accesses", 1)
					if ac.write && !throughUse(ac.ctx) && !(root == nw) {
						r.fail("writes", root.name, g.where(n), "%s changes a registry", root.name)
					}
				})
			}
		}
		hz := a.rootOf(a.p.fn("", "Hangulize"))
		if hz == nil {
			fail("no root Hangulize")
		}
		g = a.graph(hz)
		uses := 0
		for _, n := range g.nodes {
			if n.in == nil {
				continue
			}
			var m ssa.Value
			switch in := n.in.(type) {
			case *ssa.Range:
				m = in.X
			case *ssa.Lookup:
				m = in.X
			case *ssa.Call:
				if k := callKey(&in.Call); k == "maps.clone" || k == "maps.Clone" {
					m = in.Call.Args[0]
				}
			}
			if m == nil {
				continue
			}
			if mt, ok := m.Type().Underlying().(*types.Map); !ok || !a.translitMap(mt) {
				continue
			}
			for _, el := range a.pts(n.ctx, m) {
				o := canon(el.o)
				if o.ctx != nil && o.ctx.root == hz {
					continue
				}
				uses++
				if !regs[false][o] {
					r.fail("registry", "Hangulize", g.where(n), "Hangulize takes translits from %s, not from the default registry", o)
				}
			}
		}
		r.count("uses of the default registry", uses)
		r.need("registry operations", 8)
		r.need("outcomes", 10)
		r.need("uses of the default registry", 1)
		_ = made
	})
}

var nil2 = newState()

func throughUse(c *Ctx) bool {
	for ; c != nil; c = c.parent {
		switch c.fn.Name() {
		case "UseTranslit", "UnuseTranslit":
			if isRepoFn(c.fn) {
				return true
			}
		}
	}
	return false
}

// isTranslit tells whether a function is a method of a translit.
func (a *PTA) isTranslit(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return false
	}
	it := a.p.typ("", "Translit").Underlying().(*types.Interface)
	return types.Implements(recv.Type(), it) || types.Implements(types.NewPointer(recv.Type()), it)
}
