package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isTraceFunc tells whether a type is a function receiving trace events.
func isTraceFunc(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 1 {
		return false
	}
	return qualName(s.Params().At(0).Type()) == modPath+".Trace"
}

// writable lists the memory locations someone holding a value may change
// through its exported parts.
func (a *PTA) writable(ctx *Ctx, v ssa.Value) map[Elem]string {
	out := map[Elem]string{}
	var at func(e Elem, t types.Type, name string, d int)
	var ptr func(es []Elem, t types.Type, name string, d int)
	at = func(e Elem, t types.Type, name string, d int) {
		if d > 6 || t == nil {
			return
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			if extType(t) {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				if !st.Field(i).Exported() {
					continue
				}
				at(Elem{o: e.o, path: e.path + "." + st.Field(i).Name()}, st.Field(i).Type(), name+"."+st.Field(i).Name(), d+1)
			}
			return
		}
		k := Elem{o: e.o, path: e.path}
		if _, ok := out[k]; ok {
			return
		}
		out[k] = name
		if n := e.o.cells[e.path]; n != nil {
			ptr(n.list(), t, name, d+1)
		}
	}
	ptr = func(es []Elem, t types.Type, name string, d int) {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			for _, e := range es {
				if e.o.kind != oFunc {
					at(e, u.Elem(), name, d)
				}
			}
		case *types.Slice:
			for _, e := range es {
				at(Elem{o: e.o, path: e.path + "[]"}, u.Elem(), name+"[]", d)
			}
		case *types.Map:
			for _, e := range es {
				at(Elem{o: e.o, path: e.path + "{k}"}, u.Key(), name+"{}", d)
				at(Elem{o: e.o, path: e.path + "{v}"}, u.Elem(), name+"{}", d)
			}
		}
	}
	for _, l := range leaves(v.Type(), false) {
		if !exportedPath(l.path) {
			continue
		}
		ptr(a.reg(ctx, v, l.path).list(), l.t, l.path, 0)
	}
	return out
}

func exportedPath(p string) bool {
	for _, s := range strings.Split(p, ".") {
		if s != "" && !token.IsExported(s) {
			return false
		}
	}
	return true
}

func (a *PTA) tracingInert(r *Report) {
	f := a.flow(nil)
	// what registering a trace function sets
	var srcs []fnode
	for _, root := range a.roots {
		if !root.api || root.fn == nil || root.fn.Name() != "Trace" {
			continue
		}
		for _, p := range root.fn.Params {
			if isTraceFunc(p.Type()) {
				srcs = append(srcs, f.reg(root.ctx, p, ""))
			}
		}
	}
	for _, c := range a.ctxs {
		if !c.root.api {
			continue
		}
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL || !isTraceFunc(u.Type()) {
					continue
				}
				for _, e := range a.pts(c, u.X) {
					if e.o.shared {
						srcs = append(srcs, f.reg(c, u, ""))
						break
					}
				}
			}
		}
	}
	for root := range a.wordRoots() {
		// Of other operations, only what setting the function does matters:
		// what anyone else does to the memory does not come from tracing.
		t := f.taint(true, func(n fnode, in ssa.Instruction, ctx *Ctx) bool {
			return n.ctx != nil && n.ctx.root != root && n.ctx.root.fn != nil && n.ctx.root.fn.Name() != "Trace"
		}, srcs...)
		r.count("operations", 1)
		a.untouched(r, t, root, "result", func(i int) string {
			return fmt.Sprintf("whether a trace function is registered decides result %d of %s", i, root.name)
		})
		var calls []*GNode
		g := a.graph(root)
		for _, n := range g.nodes {
			if n.in == nil || n.kind != kInstr && n.kind != kDefer {
				continue
			}
			ci, ok := n.in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			si := a.callees[siteKey{n.ctx, ci}]
			if si == nil || !si.user || !isTraceFunc(ci.Common().Value.Type()) {
				continue
			}
			if n.kind == kInstr {
				if _, ok := n.in.(*ssa.Defer); ok {
					continue
				}
			}
			calls = append(calls, n)
		}
		for _, n := range calls {
			r.count("events handed out", 1)
			a.event(r, f, g, root, n)
		}
		if len(calls) > 0 {
			a.nilRecords(r, t, root)
		}
	}
}

// untouched reports the results of a root that are tainted.
func (a *PTA) untouched(r *Report, t *Taint, root *Root, rule string, say func(i int) string) {
	for i := 0; i < root.fn.Signature.Results().Len(); i++ {
		bad := t.has(fnode{ctx: root.ctx, path: fmt.Sprintf("return#%d", i)})
		where, how := a.p.pos(root.fn.Pos()), ""
		if bad {
			how = t.explain(fnode{ctx: root.ctx, path: fmt.Sprintf("return#%d", i)})
		}
		for _, b := range root.fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			v := ret.Results[i]
			for _, l := range allLeaves(v.Type()) {
				if n := t.f.reg(root.ctx, v, l.path); t.has(n) {
					bad = true
					where = a.p.instrPos(ret)
					how = t.explain(n)
				}
			}
		}
		if bad {
			r.fail(rule, fmt.Sprintf("%s %d", root.name, i), where, "%s: %s", say(i), how)
		}
	}
}

// event checks that what a trace function can change through an event is
// nothing anyone else uses.
func (a *PTA) event(r *Report, f *Flow, g *Graph, root *Root, n *GNode) {
	ci := n.in.(ssa.CallInstruction)
	w := map[Elem]string{}
	for _, x := range ci.Common().Args {
		for e, s := range a.writable(n.ctx, x) {
			w[e] = s
		}
	}
	where := g.where(n)
	var reads []fnode
	readAt := map[fnode]string{}
	for e, name := range w {
		r.count("locations of an event", 1)
		if e.o.shared || e.o.kind == oGlobal {
			r.fail("copy", fmt.Sprintf("%s %s", name, fnName(n.ctx.fn)), where, "an event handed to the trace function in %s gives access to %s, which other calls use, through its %s", fnName(n.ctx.fn), e.o, strings.TrimPrefix(name, "."))
			continue
		}
		e.o = canon(e.o)
		// later uses
		seen := map[int]bool{}
		var work []int
		push := func(id int) {
			for _, s := range g.nodes[id].succ {
				if !seen[s] {
					seen[s] = true
					work = append(work, s)
				}
			}
		}
		push(n.id)
		for len(work) > 0 {
			id := work[len(work)-1]
			work = work[:len(work)-1]
			x := g.nodes[id]
			stop := false
			if x.in != nil && (x.kind == kInstr || x.kind == kDefer) {
				if v, ok := x.in.(ssa.Value); ok && e.o.site == v && e.o.ctx == x.ctx {
					stop = true // a new one
				} else if x != n {
					a.accesses(x.ctx, x.in, func(ac Access) {
						if ac.o != e.o || !(ac.path == e.path || ac.prefix && strings.HasPrefix(e.path, ac.path) || strings.HasPrefix(e.path, ac.path+"[") || strings.HasPrefix(e.path, ac.path+".")) {
							return
						}
						if ac.write {
							if al, ok := e.o.site.(*ssa.Alloc); ok && !al.Heap {
								return
							}
							stop = true
							r.fail("copy", fmt.Sprintf("%s later %s", name, fnName(x.ctx.fn)), g.where(x), "%s of an event handed to the trace function in %s is written again in %s: it is not a copy of its own", strings.TrimPrefix(name, "."), fnName(n.ctx.fn), fnName(x.ctx.fn))
							return
						}
						if v, ok := x.in.(ssa.Value); ok {
							for _, l := range allLeaves(v.Type()) {
								rn := f.reg(x.ctx, v, l.path)
								reads = append(reads, rn)
								readAt[rn] = g.where(x)
							}
						}
					})
				}
			}
			if !stop {
				push(id)
			}
		}
	}
	if len(reads) == 0 {
		return
	}
	t := f.taint(true, nil, reads...)
	a.untouched(r, t, root, "used later", func(i int) string {
		return fmt.Sprintf("what a trace function writes into an event handed out in %s decides result %d of %s", fnName(n.ctx.fn), i, root.name)
	})
}

// nilRecords checks that tracing does not dereference an entry that was never
// recorded.
func (a *PTA) nilRecords(r *Report, t *Taint, root *Root) {
	traced := func(c *Ctx, b *ssa.BasicBlock) bool {
		if _, ok := t.blocks[blockKey{c, b}]; ok {
			return true
		}
		return false
	}
	for _, c := range a.ctxs {
		if c.root != root {
			continue
		}
		for _, b := range c.fn.Blocks {
			if !traced(c, b) {
				continue
			}
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				if _, ok := u.Type().Underlying().(*types.Pointer); !ok {
					continue
				}
				ia, ok := u.X.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				d := unguarded(u)
				if d == nil {
					continue
				}
				r.count("entries used by the tracer", 1)
				if a.setFirst(c, ia) {
					continue
				}
				if rec, why := a.mayBeUnset(t, root, c, ia); why != "" {
					r.fail("unrecorded", fnName(c.fn), a.p.instrPos(d), "%s uses an entry without a check that it is set, but %s (%s)", fnName(c.fn), why, rec)
				}
			}
		}
	}
}

// unguarded returns an instruction that dereferences a pointer with no check
// against nil around it.
func unguarded(v ssa.Value) ssa.Instruction {
	refs := v.Referrers()
	if refs == nil {
		return nil
	}
	var checks []*ssa.BasicBlock
	for _, in := range *refs {
		if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			if isNil(bo.X) || isNil(bo.Y) {
				checks = append(checks, bo.Block())
			}
		}
	}
	for _, in := range *refs {
		deref := false
		switch in := in.(type) {
		case *ssa.FieldAddr:
			deref = in.X == v
		case *ssa.UnOp:
			deref = in.Op == token.MUL
		case *ssa.Store:
			deref = in.Addr == v
		}
		if !deref {
			continue
		}
		ok := false
		for _, cb := range checks {
			if cb != in.Block() && cb.Dominates(in.Block()) {
				ok = true
			}
		}
		if !ok {
			return in
		}
	}
	return nil
}

func isNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// setFirst tells whether the function has asked for the entry, and set it if
// there was none, before it uses it.
func (a *PTA) setFirst(c *Ctx, ia *ssa.IndexAddr) bool {
	objs := map[*Obj]bool{}
	for _, e := range a.pts(c, ia) {
		objs[canon(e.o)] = true
	}
	same := func(addr ssa.Value) bool {
		x, ok := addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		if x.Index != ia.Index && !sameLoad(x.Index, ia.Index) {
			return false
		}
		for _, e := range a.pts(c, x) {
			if objs[canon(e.o)] {
				return true
			}
		}
		return false
	}
	for _, b := range c.fn.Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == ia.Block() || !b.Dominates(ia.Block()) {
			continue
		}
		bo, ok := i.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isNil(bo.X) && !isNil(bo.Y) {
			continue
		}
		v := bo.X
		if isNil(v) {
			v = bo.Y
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || !same(u.X) {
			continue
		}
		unset := b.Succs[0]
		if bo.Op == token.NEQ {
			unset = b.Succs[1]
		}
		for _, in := range unset.Instrs {
			if s, ok := in.(*ssa.Store); ok && same(s.Addr) && !isNil(s.Val) {
				return true
			}
		}
	}
	return false
}

// sameLoad tells whether two values are loads of the same field of the same
// variable.
func sameLoad(x, y ssa.Value) bool {
	a, ok := x.(*ssa.UnOp)
	b, ok2 := y.(*ssa.UnOp)
	return ok && ok2 && a.Op == token.MUL && b.Op == token.MUL && sameAddr(a.X, b.X)
}

// mayBeUnset looks for a reason why an element of a slice has not been set
// whenever it is used.
func (a *PTA) mayBeUnset(t *Taint, root *Root, c *Ctx, ia *ssa.IndexAddr) (string, string) {
	objs := map[*Obj]bool{}
	for _, e := range a.pts(c, ia) {
		objs[canon(e.o)] = true
	}
	type st struct {
		c  *Ctx
		in *ssa.Store
	}
	var stores []st
	for _, cc := range a.ctxs {
		if cc.root != root {
			continue
		}
		for _, b := range cc.fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				sa, ok := s.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if al, ok := sa.X.(*ssa.Alloc); ok && al.Comment == "varargs" || isNil(s.Val) {
					continue
				}
				hit := false
				for _, e := range a.pts(cc, sa) {
					if objs[canon(e.o)] {
						hit = true
					}
				}
				if hit {
					stores = append(stores, st{cc, s})
				}
			}
		}
	}
	if len(stores) == 0 {
		return "", ""
	}
	why, where := "", ""
	for _, s := range stores {
		w, at := a.conditional(t, s.c, s.in.Block(), objs)
		if w == "" {
			return "", ""
		}
		why, where = w, at
	}
	return where, why
}

// conditional climbs from a block to the innermost loop around it, looking for
// a condition that may skip it, other than one that asks whether anyone traces
// or whether the entry is set.
func (a *PTA) conditional(t *Taint, c *Ctx, b *ssa.BasicBlock, objs map[*Obj]bool) (string, string) {
	for {
		var inner *Domain
		for _, d := range loopsOf(c.fn) {
			if d.body[b] && (inner == nil || len(d.body) < len(inner.body)) {
				inner = d
			}
		}
		cd := t.f.controls(c.fn)
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{b}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			for _, y := range cd[x] {
				if seen[y] {
					continue
				}
				seen[y] = true
				if inner != nil && (!inner.body[y] || y == inner.hdr || inner.guard != nil && inner.guard.Block() == y) {
					continue
				}
				cond := y.Instrs[len(y.Instrs)-1].(*ssa.If).Cond
				if a.aboutTracing(t, c, cond, objs) {
					work = append(work, y)
					continue
				}
				return "it is recorded only under a condition", a.p.instrPos(lastPos(y))
			}
		}
		if inner != nil || c.parent == nil {
			return "", ""
		}
		b = c.site.Block()
		c = c.parent
	}
}

func lastPos(b *ssa.BasicBlock) ssa.Instruction {
	last := b.Instrs[len(b.Instrs)-1]
	if i, ok := last.(*ssa.If); ok {
		if in, ok := i.Cond.(ssa.Instruction); ok {
			return in
		}
	}
	return last
}

func (a *PTA) aboutTracing(t *Taint, c *Ctx, cond ssa.Value, objs map[*Obj]bool) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			for _, e := range a.pts(c, u.X) {
				if objs[canon(e.o)] {
					return true
				}
			}
		}
		// len of the records
		if ca, ok := v.(*ssa.Call); ok && isBuiltin(ca) {
			for _, x := range ca.Common().Args {
				if pointerish(x.Type()) {
					for _, e := range a.pts(c, x) {
						if objs[canon(e.o)] {
							return true
						}
					}
				}
			}
		}
	}
	if isNil(bo.X) || isNil(bo.Y) {
		v := bo.X
		if isNil(v) {
			v = bo.Y
		}
		return t.has(t.f.reg(c, v, ""))
	}
	return false
}

func init() {
	register("C05", func(e *Env, r *Report) {
		a := e.Lib()
		var roots []*Root
		for root := range a.wordRoots() {
			roots = append(roots, root)
		}
		r.analysedBy(a, roots)
		r.rule("No result or error of an operation on a word depends, by data or by control, on whether a trace function is registered.")
		r.rule("What can be changed through an event is fresh memory of its own: it is not reachable by other calls, is not written again, and nothing read from it later reaches a result.")
		r.rule("The tracer uses no entry that recording may have skipped.")
		a.tracingInert(r)
		r.need("operations", 8)
		r.need("events handed out", 5)
		r.need("locations of an event", 1)
	})
}
