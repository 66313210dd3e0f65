package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: the cache of bundled specs is invisible.

// pathForm writes a concatenation with one occurrence of a term as "%".
func (x *Sim) pathForm(t, hole *Term) (string, bool) {
	form, n := "", 0
	for _, p := range x.concat(t) {
		if p == hole.String() {
			form += "%"
			n++
		} else if strings.HasPrefix(p, "\"") {
			form += strings.Trim(p, "\"")
		} else {
			return form, false
		}
	}
	return form, n == 1
}

func hasSpecLeaf(t types.Type) bool {
	for _, l := range pleaves(t) {
		if qualName(l.t) == modPath+".Spec" {
			return true
		}
	}
	return false
}

func unread(t *Term) *Term {
	for t != nil && (t.op == "reader" || t.op == "iface" || t.op == "conv") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

func init() {
	register("C18", func(e *Env, r *Report) {
		a := e.Lib()
		r.rule("Every spec LoadSpec returns is either the parsed source file of exactly the requested language, or the cache entry under that language; what is stored is the successfully parsed spec of the language it is stored under; all cache operations use the same injective function of the language as key.")
		r.rule("UnloadSpec removes the entry of its language on every path and no other. ListLangs reads no memory that loading or unloading writes, and hands out no memory it shares.")
		load := a.rootOf(a.p.fn("", "LoadSpec"))
		unload := a.rootOf(a.p.fn("", "UnloadSpec"))
		list := a.rootOf(a.p.fn("", "ListLangs"))
		if load == nil || unload == nil || list == nil {
			fail("LoadSpec, UnloadSpec or ListLangs is missing")
		}
		keys := map[string]string{} // key form -> where
		caches := map[*Obj]bool{}
		noteMap := func(n *GNode, v ssa.Value) {
			for _, el := range a.pts(n.ctx, v) {
				caches[canon(el.o)] = true
			}
		}
		isCache := func(t *types.Map) bool { return hasSpecLeaf(t.Elem()) }

		one := func(root *Root) *Sim {
			x := a.newSim(root)
			lang := x.param(0)
			keyOK := func(n *GNode, k *Term, what string) {
				form, ok := x.pathForm(k, lang)
				if !ok {
					r.fail("key", root.name+" "+what, x.g.where(n), "%s: the cache is %s under a key (%s) that is not the requested language", root.name, what, k)
					return
				}
				keys[form] = root.name + " (" + x.g.where(n) + ")"
			}
			// parsed tells whether a term is the spec parsed from the language's source.
			parsed := func(t *Term) (bool, string) {
				if t == nil {
					return false, "an unknown value"
				}
				if t.op == "nil" {
					return false, "nil"
				}
				if t.op != "parsed" {
					return false, t.String()
				}
				src := unread(t.args[0])
				if src == nil || src.op != "file" {
					return false, "the spec parsed from " + t.args[0].String()
				}
				form, ok := x.pathForm(src.args[0], lang)
				if !ok || form != "specs/%.hsl" {
					return false, "the spec parsed from file " + form
				}
				return true, ""
			}
			mm := &mapModel{x: x, is: isCache}
			mm.onLookup = func(s *State, n *GNode, m, k *Term) {
				r.count("cache operations", 1)
				noteMap(n, n.in.(*ssa.Lookup).X)
				keyOK(n, k, "looked up")
			}
			mm.onInsert = func(s *State, n *GNode, m, k *Term, val func(string) *Term) {
				r.count("cache operations", 1)
				in := n.in.(*ssa.MapUpdate)
				noteMap(n, in.Map)
				keyOK(n, k, "filled")
				for _, l := range pleaves(in.Map.Type().Underlying().(*types.Map).Elem()) {
					if qualName(l.t) != modPath+".Spec" {
						continue
					}
					v := val(l.path)
					if v != nil && v.op == "at" && v.args[1] == k {
						continue
					}
					if ok, why := parsed(v); !ok {
						r.fail("stored", root.name, x.g.where(n), "%s caches %s instead of the spec of its own language (path: %s)", root.name, why, s.trail())
					}
				}
			}
			mm.onDelete = func(s *State, n *GNode, m, k *Term) {
				r.count("cache operations", 1)
				noteMap(n, n.in.(ssa.CallInstruction).Common().Args[0])
				if root == unload {
					keyOK(n, k, "emptied")
					s.cl["deleted"] = "1"
				}
			}
			mm.onClear = func(s *State, n *GNode, m *Term) {
				if root == unload {
					r.fail("unload", "clear", x.g.where(n), "UnloadSpec removes every language")
				}
			}
			x.instr = func(s *State, n *GNode) []*State {
				if c, ok := n.in.(*ssa.Convert); ok && n.kind == kInstr {
					if _, isSlice := c.X.Type().Underlying().(*types.Slice); isSlice {
						t := x.eval(s, n.ctx, c.X)
						x.define(s, n.ctx, c)
						if t.op == "file" {
							x.set(s, n.ctx, c, "", t)
						}
						return []*State{s}
					}
				}
				out := mm.instr(s, n)
				if in, ok := n.in.(*ssa.Lookup); ok && out != nil && root == unload {
					for _, t := range out {
						if f := t.facts[x.mk("present", "", x.eval(t, n.ctx, in.X), x.eval(t, n.ctx, in.Index))]; f.eq == x.tFalse {
							t.cl["deleted"] = "absent"
						}
					}
				}
				return out
			}
			x.opaque = func(c *Ctx) bool { return fnKey(c.fn) == modPath+".ParseSpec" }
			notExist := x.mk("load", "", x.mk("&g", "io/fs.ErrNotExist"))
			notExist2 := x.mk("load", "", x.mk("&g", "os.ErrNotExist"))
			x.call = func(s *State, n *GNode) []*State {
				mm.unlocked(s, n)
				key, cc, call := x.key1(n)
				if call == nil {
					return nil
				}
				two := func(t *Term, ee *Term) []*State {
					bad := s.clone()
					x.set(s, n.ctx, call, "#0", t)
					if t.op == "parsed" {
						x.setNe(s, t, x.tNil)
					}
					x.set(s, n.ctx, call, "#1", x.tNil)
					x.set(bad, n.ctx, call, "#1", ee)
					return []*State{s, bad}
				}
				switch key {
				case modPath + ".ParseSpec":
					r.count("parses", 1)
					t := x.mk("parsed", "", x.eval(s, n.ctx, cc.Args[0]))
					return two(t, x.mk("err", "parse", x.reg(n.ctx, call, "$")))
				case "embed.FS.ReadFile", "embed.FS.Open", "io/fs.ReadFile", "io/fs.FS.Open":
					i := len(cc.Args) - 1
					t := x.mk("file", "", x.eval(s, n.ctx, cc.Args[i]))
					return two(t, x.mk("err", "open", x.reg(n.ctx, call, "$"), notExist, notExist2))
				}
				return x.std(s, n)
			}
			x.end = func(s *State, n *GNode, panics bool) {
				if panics {
					return
				}
				r.count("outcomes", 1)
				switch root {
				case unload:
					if s.cl["deleted"] == "" {
						r.fail("unload", "kept", x.g.where(n), "UnloadSpec may return without removing the language (path: %s)", s.trail())
					}
				case load:
					spec, er := x.result(s, 0, ""), x.result(s, 1, "")
					if er == nil || er.op != "nil" {
						return
					}
					if spec != nil && spec.op == "at" && hasForm(x, spec.args[1], lang) {
						return
					}
					if ok, why := parsed(spec); !ok {
						r.fail("returned", "LoadSpec", x.g.where(n), "LoadSpec returns %s for a language without reporting an error (path: %s)", why, s.trail())
					}
				}
			}
			x.run(nil)
			r.sim(x)
			return x
		}
		one(load)
		one(unload)
		if len(keys) > 1 {
			r.fail("key", "differ", "specs.go", "cache operations disagree about the key of a language: %s", strings.Join(sortedKeys(keys), " / "))
		}
		r.count("caches", len(caches))

		// listing
		written := map[*Obj]bool{}
		for _, root := range a.roots {
			if !root.api || root == list {
				continue
			}
			g := a.graph(root)
			a.sharedAccesses(g, func(n *GNode, ac Access) {
				if ac.write && inSpecs(a, ac) {
					written[ac.o] = true
				}
			})
		}
		g := a.graph(list)
		for _, n := range g.nodes {
			if n.in == nil {
				continue
			}
			a.accesses(n.ctx, n.in, func(ac Access) {
				if !ac.write && (written[ac.o] || caches[ac.o]) && ac.o.typ != nil && !isLockObj(ac) {
					r.fail("listing", ac.o.String(), g.where(n), "ListLangs reads %s, which loading or unloading a spec changes", ac.o)
				}
			})
			if ret, ok := n.in.(*ssa.Return); ok && n.ctx == list.ctx {
				for _, v := range ret.Results {
					for _, el := range a.pts(n.ctx, v) {
						o := canon(el.o)
						if o.kind == oGlobal || o.init || (o.ctx != nil && o.ctx.root != list) || reachableFromGlobals(a, o) {
							r.fail("listing", "shared", g.where(n), "ListLangs hands out memory it keeps (%s): changing the list changes later lists", o)
						}
					}
				}
			}
		}
		r.analysedBy(a, []*Root{load, unload, list})
		r.need("cache operations", 3)
		r.need("parses", 1)
		r.need("outcomes", 4)
	})
}

func hasForm(x *Sim, t, lang *Term) bool {
	_, ok := x.pathForm(t, lang)
	return ok
}

func inSpecs(a *PTA, ac Access) bool {
	for c := ac.ctx; c != nil; c = c.parent {
		switch fnKey(c.fn) {
		case modPath + ".LoadSpec", modPath + ".UnloadSpec":
			return true
		}
	}
	return false
}

func isLockObj(ac Access) bool {
	return strings.HasPrefix(ac.what, "sync")
}

// reachableFromGlobals tells whether an object can be reached from the global
// variables of the repository.
func reachableFromGlobals(a *PTA, o *Obj) bool {
	if a.globReach == nil {
		a.globReach = map[*Obj]bool{}
		var work []*Obj
		visit := func(o *Obj) {
			for _, nd := range o.cells {
				for _, el := range nd.list() {
					c := canon(el.o)
					if !a.globReach[c] {
						a.globReach[c] = true
						work = append(work, c)
						if c.twin != nil {
							work = append(work, c.twin)
						}
					}
				}
			}
		}
		for _, g := range a.globals {
			visit(g)
			if g.twin != nil {
				visit(g.twin)
			}
		}
		for len(work) > 0 {
			c := work[len(work)-1]
			work = work[:len(work)-1]
			visit(c)
		}
	}
	return a.globReach[o]
}
